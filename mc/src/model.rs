//! The reference model: an SSZ codec written from the specification, as an interpreter over a
//! schema. It shares no code with the crate under test and is deliberately naive.

/// A value of some schema.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    /// Unsigned integer of at most 16 bytes.
    N(u128),
    /// Unsigned integer of 32 bytes: high half, low half.
    W(u128, u128),
    B(bool),
    Bytes(Vec<u8>),
    Bits(Vec<bool>),
    /// List, and map/set (entries in ascending key order).
    L(Vec<Val>),
    /// Container fields.
    C(Vec<Val>),
    /// Union/tag/option: selector and payload (`None` for an empty variant).
    U(u8, Option<Box<Val>>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Schema {
    Uint(usize),
    Bool,
    /// uint of n bytes, zero not allowed.
    NonZero(usize),
    /// Vector[byte, n]
    BytesN(usize),
    /// List[byte] held as a byte string.
    ByteList,
    BitVec(usize),
    BitList(usize),
    /// Bit vector whose size is given by the input: any positive number of whole bytes.
    BitDyn,
    List(Box<Schema>),
    Cont(Vec<Schema>),
    /// Union; `None` is the empty variant.
    Union(Vec<Option<Schema>>),
    /// uint8 below n.
    Tag(usize),
    /// Option with a four-byte selector.
    Legacy(Box<Schema>),
    Map(Box<Schema>, Box<Schema>),
    Set(Box<Schema>),
    /// Encodes as the payload, decodes to the first variant that accepts.
    TEnum(Vec<Schema>),
}

use Schema::*;

fn bits_to_bytes(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; bits.len() / 8 + usize::from(bits.len() % 8 != 0)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            out[i / 8] += 1 << (i % 8);
        }
    }
    out
}

fn bytes_to_bits(bytes: &[u8]) -> Vec<bool> {
    let mut out = vec![];
    for b in bytes {
        let mut x = *b;
        for _ in 0..8 {
            out.push(x % 2 == 1);
            x /= 2;
        }
    }
    out
}

/// SSZ encoding of a Bitlist.
pub fn bitlist_bytes(bits: &[bool]) -> Vec<u8> {
    let mut b = bits.to_vec();
    b.push(true);
    bits_to_bytes(&b)
}

/// SSZ encoding of a Bitvector (a zero-length one takes a byte in this library).
pub fn bitvec_bytes(bits: &[bool]) -> Vec<u8> {
    if bits.is_empty() {
        vec![0]
    } else {
        bits_to_bytes(bits)
    }
}

pub fn de_bitlist(n: usize, b: &[u8]) -> Result<Vec<bool>, ()> {
    let mut bits = bytes_to_bits(b);
    if b.last().copied().unwrap_or(0) == 0 {
        return Err(());
    }
    while bits.pop() == Some(false) {}
    if bits.len() > n {
        return Err(());
    }
    Ok(bits)
}

pub fn de_bitvec(n: usize, b: &[u8]) -> Result<Vec<bool>, ()> {
    let want = if n == 0 { 1 } else { n / 8 + usize::from(n % 8 != 0) };
    if b.len() != want {
        return Err(());
    }
    let bits = bytes_to_bits(b);
    if bits[n..].iter().any(|x| *x) {
        return Err(());
    }
    Ok(bits[..n].to_vec())
}

impl Schema {
    /// How deep lists of items are nested.
    pub fn list_levels(&self) -> usize {
        let of = |fs: &[&Schema]| fs.iter().map(|f| f.list_levels()).max().unwrap_or(0);
        match self {
            List(t) | Set(t) => 1 + t.list_levels(),
            Map(k, v) => 1 + of(&[k, v]),
            Cont(fs) | TEnum(fs) => of(&fs.iter().collect::<Vec<_>>()),
            Union(fs) => of(&fs.iter().flatten().collect::<Vec<_>>()),
            Legacy(t) => t.list_levels(),
            _ => 0,
        }
    }

    /// `Some(n)` if every value takes exactly n bytes.
    pub fn fixed(&self) -> Option<usize> {
        match self {
            Uint(n) | NonZero(n) | BytesN(n) => Some(*n),
            Bool | Tag(_) => Some(1),
            BitVec(0) => Some(1),
            BitVec(n) => Some(n / 8 + usize::from(n % 8 != 0)),
            Cont(fs) => {
                let mut sum = 0;
                for f in fs {
                    sum += f.fixed()?;
                }
                Some(sum)
            }
            ByteList | BitList(_) | BitDyn | List(_) | Union(_) | Legacy(_) | Map(..) | Set(_)
            | TEnum(_) => None,
        }
    }

    /// Length in the fixed part of an enclosing container.
    pub fn part(&self) -> usize {
        self.fixed().unwrap_or(4)
    }

    fn any(&self, f: &dyn Fn(&Schema) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            List(a) | Legacy(a) | Set(a) => a.any(f),
            Map(a, b) => a.any(f) || b.any(f),
            Cont(v) | TEnum(v) => v.iter().any(|x| x.any(f)),
            Union(v) => v.iter().flatten().any(|x| x.any(f)),
            _ => false,
        }
    }

    /// Some list's items have an encoded length of zero.
    pub fn has_zero_items(&self) -> bool {
        self.any(&|s| match s {
            List(a) | Set(a) => a.fixed() == Some(0),
            Map(a, b) => a.fixed() == Some(0) && b.fixed() == Some(0),
            _ => false,
        })
    }

    pub fn has_collections(&self) -> bool {
        self.any(&|s| matches!(s, Map(..) | Set(_)))
    }

    pub fn has_tenum(&self) -> bool {
        self.any(&|s| matches!(s, TEnum(_)))
    }

    /// A transparent enum with a fixed-size variant: documented to panic at run time when its
    /// encoder metadata is asked for.
    pub fn has_fixed_tenum(&self) -> bool {
        self.any(&|s| match s {
            TEnum(v) => v.iter().any(|x| x.fixed().is_some()),
            _ => false,
        })
    }

    pub fn has_legacy(&self) -> bool {
        self.any(&|s| matches!(s, Legacy(_)))
    }

    pub fn has_union(&self) -> bool {
        self.any(&|s| matches!(s, Union(_)))
    }

    pub fn depth(&self) -> usize {
        match self {
            List(a) | Legacy(a) | Set(a) => 1 + a.depth(),
            Map(a, b) => 1 + a.depth().max(b.depth()),
            Cont(v) | TEnum(v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            Union(v) => 1 + v.iter().flatten().map(|x| x.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

fn le(n: u128, len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut n = n;
    for _ in 0..len {
        out.push((n % 256) as u8);
        n /= 256;
    }
    assert_eq!(n, 0, "value out of range for its schema");
    out
}

fn un_le(b: &[u8]) -> u128 {
    let mut n = 0u128;
    for x in b.iter().rev() {
        n = n * 256 + *x as u128;
    }
    n
}

/// serialize(); `offs` collects the absolute positions of all offset words.
fn ser_at(s: &Schema, v: &Val, base: usize, offs: &mut Vec<usize>) -> Vec<u8> {
    match (s, v) {
        (Uint(32), Val::W(hi, lo)) => {
            let mut o = le(*lo, 16);
            o.extend(le(*hi, 16));
            o
        }
        (Uint(n), Val::N(x)) => le(*x, *n),
        (NonZero(n), Val::N(x)) => {
            assert!(*x != 0);
            le(*x, *n)
        }
        (Bool, Val::B(b)) => vec![if *b { 1 } else { 0 }],
        (BytesN(n), Val::Bytes(b)) => {
            assert_eq!(b.len(), *n);
            b.clone()
        }
        (ByteList, Val::Bytes(b)) => b.clone(),
        (BitVec(n), Val::Bits(b)) => {
            assert_eq!(b.len(), *n);
            bitvec_bytes(b)
        }
        (BitList(n), Val::Bits(b)) => {
            assert!(b.len() <= *n);
            bitlist_bytes(b)
        }
        (BitDyn, Val::Bits(b)) => {
            assert!(!b.is_empty() && b.len() % 8 == 0);
            bits_to_bytes(b)
        }
        (List(item), Val::L(vs)) => {
            let parts: Vec<(&Schema, &Val)> = vs.iter().map(|v| (&**item, v)).collect();
            ser_parts(&parts, base, offs)
        }
        (Set(item), Val::L(vs)) => {
            let parts: Vec<(&Schema, &Val)> = vs.iter().map(|v| (&**item, v)).collect();
            ser_parts(&parts, base, offs)
        }
        (Map(k, val), Val::L(vs)) => {
            let entry = Cont(vec![(**k).clone(), (**val).clone()]);
            let parts: Vec<(&Schema, &Val)> = vs.iter().map(|v| (&entry, v)).collect();
            ser_parts(&parts, base, offs)
        }
        (Cont(fs), Val::C(vs)) => {
            assert_eq!(fs.len(), vs.len());
            let parts: Vec<(&Schema, &Val)> = fs.iter().zip(vs.iter()).collect();
            ser_parts(&parts, base, offs)
        }
        (Union(vars), Val::U(sel, p)) => {
            let mut out = vec![*sel];
            match (&vars[*sel as usize], p) {
                (None, None) => (),
                (Some(s), Some(v)) => out.extend(ser_at(s, v, base + 1, offs)),
                _ => panic!("value does not fit its schema"),
            }
            out
        }
        (Tag(n), Val::U(sel, None)) => {
            assert!((*sel as usize) < *n);
            vec![*sel]
        }
        (Legacy(inner), Val::U(sel, p)) => {
            let mut out = vec![*sel, 0, 0, 0];
            match (sel, p) {
                (0, None) => (),
                (1, Some(v)) => out.extend(ser_at(inner, v, base + 4, offs)),
                _ => panic!("value does not fit its schema"),
            }
            out
        }
        (TEnum(vars), Val::U(sel, Some(v))) => ser_at(&vars[*sel as usize], v, base, offs),
        _ => panic!("value {v:?} does not fit schema {s:?}"),
    }
}

/// The specification's rule for a sequence of parts: fixed parts and offsets, then variable parts.
fn ser_parts(parts: &[(&Schema, &Val)], base: usize, offs: &mut Vec<usize>) -> Vec<u8> {
    let fixed_len: usize = parts.iter().map(|(s, _)| s.part()).sum();
    let mut head = vec![];
    let mut tail: Vec<u8> = vec![];
    for (s, v) in parts {
        if s.fixed().is_some() {
            head.extend(ser_at(s, v, base + head.len(), offs));
        } else {
            offs.push(base + head.len());
            let at = fixed_len + tail.len();
            head.extend(le(at as u128, 4));
            tail.extend(ser_at(s, v, base + at, offs));
        }
    }
    head.extend(tail);
    head
}

pub fn ser(s: &Schema, v: &Val) -> Vec<u8> {
    ser_at(s, v, 0, &mut vec![])
}

pub fn ser_map(s: &Schema, v: &Val) -> (Vec<u8>, Vec<usize>) {
    let mut offs = vec![];
    let b = ser_at(s, v, 0, &mut offs);
    (b, offs)
}

/// Where each part of a container/list with the given (fixed length | variable) items lies.
/// This is the whole of the specification's offset rule.
pub fn partition(items: &[Option<usize>], b: &[u8]) -> Result<Vec<(usize, usize)>, ()> {
    let mut at = 0usize;
    let mut out: Vec<(usize, usize)> = vec![];
    let mut var: Vec<(usize, usize)> = vec![]; // (item index, offset)
    for (i, it) in items.iter().enumerate() {
        let n = it.unwrap_or(4);
        if n > b.len() || at > b.len() - n {
            return Err(());
        }
        if it.is_none() {
            var.push((i, un_le(&b[at..at + 4]) as usize));
        }
        out.push((at, at + n));
        at += n;
    }
    if var.is_empty() {
        return if at == b.len() { Ok(out) } else { Err(()) };
    }
    for k in 0..var.len() {
        let (i, start) = var[k];
        let end = if k + 1 < var.len() { var[k + 1].1 } else { b.len() };
        if k == 0 && start != at {
            return Err(());
        }
        if start > end || end > b.len() {
            return Err(());
        }
        out[i] = (start, end);
    }
    Ok(out)
}

/// Item ranges of a list of variable-size items.
pub fn list_partition(b: &[u8]) -> Result<Vec<(usize, usize)>, ()> {
    if b.is_empty() {
        return Ok(vec![]);
    }
    if b.len() < 4 {
        return Err(());
    }
    let first = un_le(&b[..4]) as usize;
    if first == 0 || first % 4 != 0 || first > b.len() {
        return Err(());
    }
    partition(&vec![None; first / 4], b)
}

fn de_items(item: &Schema, b: &[u8]) -> Result<Vec<Val>, ()> {
    match item.fixed() {
        Some(0) => {
            if b.is_empty() {
                Ok(vec![])
            } else {
                Err(())
            }
        }
        Some(n) => {
            if b.len() % n != 0 {
                return Err(());
            }
            let mut out = vec![];
            let mut at = 0;
            while at < b.len() {
                out.push(de(item, &b[at..at + n])?);
                at += n;
            }
            Ok(out)
        }
        None => {
            let mut out = vec![];
            for (x, y) in list_partition(b)? {
                out.push(de(item, &b[x..y])?);
            }
            Ok(out)
        }
    }
}

/// Entries of a well-formed entry list to the collection: later duplicates replace earlier ones.
pub fn collect_map(entries: Vec<Val>) -> Vec<Val> {
    let mut out = std::collections::BTreeMap::new();
    for e in entries {
        match e {
            Val::C(mut kv) => {
                let v = kv.pop().unwrap();
                let k = kv.pop().unwrap();
                out.insert(k, v);
            }
            _ => unreachable!(),
        }
    }
    out.into_iter().map(|(k, v)| Val::C(vec![k, v])).collect()
}

pub fn collect_set(mut entries: Vec<Val>) -> Vec<Val> {
    entries.sort();
    entries.dedup();
    entries
}

/// Strict deserialize().
pub fn de(s: &Schema, b: &[u8]) -> Result<Val, ()> {
    if let Some(n) = s.fixed() {
        if b.len() != n {
            return Err(());
        }
    }
    match s {
        Uint(32) => Ok(Val::W(un_le(&b[16..]), un_le(&b[..16]))),
        Uint(_) => Ok(Val::N(un_le(b))),
        NonZero(_) => match un_le(b) {
            0 => Err(()),
            x => Ok(Val::N(x)),
        },
        Bool => match b[0] {
            0 => Ok(Val::B(false)),
            1 => Ok(Val::B(true)),
            _ => Err(()),
        },
        BytesN(_) | ByteList => Ok(Val::Bytes(b.to_vec())),
        BitVec(n) => de_bitvec(*n, b).map(Val::Bits),
        BitList(n) => de_bitlist(*n, b).map(Val::Bits),
        BitDyn => {
            if b.is_empty() {
                Err(())
            } else {
                Ok(Val::Bits(bytes_to_bits(b)))
            }
        }
        List(item) => de_items(item, b).map(Val::L),
        Set(item) => de_items(item, b).map(|v| Val::L(collect_set(v))),
        Map(k, v) => {
            let entry = Cont(vec![(**k).clone(), (**v).clone()]);
            de_items(&entry, b).map(|v| Val::L(collect_map(v)))
        }
        Cont(fs) => {
            let items: Vec<Option<usize>> = fs.iter().map(|f| f.fixed()).collect();
            let ranges = partition(&items, b)?;
            let mut out = vec![];
            for (f, (x, y)) in fs.iter().zip(ranges) {
                out.push(de(f, &b[x..y])?);
            }
            Ok(Val::C(out))
        }
        Union(vars) => {
            let sel = *b.first().ok_or(())?;
            if sel > 127 || sel as usize >= vars.len() {
                return Err(());
            }
            match &vars[sel as usize] {
                None => {
                    if b.len() == 1 {
                        Ok(Val::U(sel, None))
                    } else {
                        Err(())
                    }
                }
                Some(s) => Ok(Val::U(sel, Some(Box::new(de(s, &b[1..])?)))),
            }
        }
        Tag(n) => {
            if (b[0] as usize) < *n {
                Ok(Val::U(b[0], None))
            } else {
                Err(())
            }
        }
        Legacy(inner) => {
            if b.len() < 4 {
                return Err(());
            }
            match un_le(&b[..4]) {
                0 if b.len() == 4 => Ok(Val::U(0, None)),
                1 => Ok(Val::U(1, Some(Box::new(de(inner, &b[4..])?)))),
                _ => Err(()),
            }
        }
        TEnum(vars) => {
            for (i, s) in vars.iter().enumerate() {
                if let Ok(v) = de(s, b) {
                    return Ok(Val::U(i as u8, Some(Box::new(v))));
                }
            }
            Err(())
        }
    }
}

/// Length of the encoding, computed from the schema without encoding.
pub fn ser_len(s: &Schema, v: &Val) -> usize {
    ser(s, v).len()
}

/// The model against vectors of the SSZ specification, worked out by hand.
pub fn self_check() {
    let n = |x: u128| Val::N(x);
    let list = |v: Vec<Val>| Val::L(v);
    let u16s = List(Box::new(Uint(2)));
    let cases: Vec<(Schema, Val, Vec<u8>)> = vec![
        (Uint(4), n(0x01020304), vec![4, 3, 2, 1]),
        (Uint(32), Val::W(1 << 120, 5), {
            let mut v = vec![0; 32];
            v[0] = 5;
            v[31] = 1;
            v
        }),
        (Bool, Val::B(true), vec![1]),
        (u16s.clone(), list(vec![n(1), n(0x203)]), vec![1, 0, 3, 2]),
        (List(Box::new(u16s.clone())), list(vec![]), vec![]),
        (List(Box::new(u16s.clone())), list(vec![list(vec![])]), vec![4, 0, 0, 0]),
        (
            List(Box::new(u16s.clone())),
            list(vec![list(vec![n(7)]), list(vec![]), list(vec![n(8), n(9)])]),
            vec![12, 0, 0, 0, 14, 0, 0, 0, 14, 0, 0, 0, 7, 0, 8, 0, 9, 0],
        ),
        (
            Cont(vec![Uint(1), u16s.clone(), Uint(2), ByteList]),
            Val::C(vec![n(5), list(vec![n(6)]), n(0x0708), Val::Bytes(vec![9])]),
            vec![5, 11, 0, 0, 0, 8, 7, 13, 0, 0, 0, 6, 0, 9],
        ),
        (
            List(Box::new(Cont(vec![Uint(1), ByteList]))),
            list(vec![Val::C(vec![n(1), Val::Bytes(vec![2])]), Val::C(vec![n(3), Val::Bytes(vec![])])]),
            vec![8, 0, 0, 0, 14, 0, 0, 0, 1, 5, 0, 0, 0, 2, 3, 5, 0, 0, 0],
        ),
        (Union(vec![None, Some(Uint(2))]), Val::U(1, Some(Box::new(n(3)))), vec![1, 3, 0]),
        (Union(vec![None, Some(Uint(2))]), Val::U(0, None), vec![0]),
        (Legacy(Box::new(Uint(2))), Val::U(1, Some(Box::new(n(3)))), vec![1, 0, 0, 0, 3, 0]),
        (Legacy(Box::new(Uint(2))), Val::U(0, None), vec![0, 0, 0, 0]),
        (BitList(8), Val::Bits(vec![]), vec![1]),
        (BitList(8), Val::Bits(vec![true, false, true]), vec![0b1101]),
        (BitList(9), Val::Bits(vec![false; 8]), vec![0, 1]),
        (BitVec(9), Val::Bits(vec![true, false, false, false, false, false, false, false, true]), vec![1, 1]),
        (BitVec(0), Val::Bits(vec![]), vec![0]),
        (BitDyn, Val::Bits(vec![false, true, false, false, false, false, false, false]), vec![2]),
        (
            Map(Box::new(Uint(1)), Box::new(Uint(2))),
            list(vec![Val::C(vec![n(1), n(2)]), Val::C(vec![n(3), n(4)])]),
            vec![1, 2, 0, 3, 4, 0],
        ),
    ];
    for (s, v, b) in cases {
        assert_eq!(ser(&s, &v), b, "model encodes {v:?} of {s:?} wrongly");
        assert_eq!(de(&s, &b), Ok(v), "model decodes {b:?} of {s:?} wrongly");
    }
    let bad: Vec<(Schema, Vec<u8>)> = vec![
        (Uint(2), vec![1]),
        (Bool, vec![2]),
        (u16s.clone(), vec![1, 2, 3]),
        (List(Box::new(u16s.clone())), vec![0, 0, 0, 0]),
        (List(Box::new(u16s.clone())), vec![5, 0, 0, 0, 0]),
        (List(Box::new(u16s.clone())), vec![8, 0, 0, 0, 12, 0, 0, 0, 0, 0]),
        (List(Box::new(u16s.clone())), vec![8, 0, 0, 0, 7, 0, 0, 0]),
        (Cont(vec![Uint(1), ByteList]), vec![1, 4, 0, 0, 0]),
        (Cont(vec![Uint(1), ByteList]), vec![1, 6, 0, 0, 0, 0]),
        (Cont(vec![ByteList, ByteList]), vec![8, 0, 0, 0, 9, 0, 0, 0]),
        (Union(vec![None, Some(Uint(2))]), vec![]),
        (Union(vec![None, Some(Uint(2))]), vec![0, 0]),
        (Union(vec![None, Some(Uint(2))]), vec![2]),
        (Legacy(Box::new(Uint(2))), vec![0, 0, 0]),
        (Legacy(Box::new(Uint(2))), vec![0, 0, 0, 0, 0]),
        (Legacy(Box::new(Uint(2))), vec![1, 0, 0, 1, 3, 0]),
        (BitList(8), vec![]),
        (BitList(8), vec![0]),
        (BitList(8), vec![1, 0]),
        (BitList(8), vec![0, 2]),
        (BitVec(4), vec![0x10]),
        (BitVec(4), vec![0, 0]),
        (BitDyn, vec![]),
        (Tag(3), vec![3]),
        (Tag(3), vec![0, 0]),
        (NonZero(8), vec![0; 8]),
    ];
    for (s, b) in bad {
        assert_eq!(de(&s, &b), Err(()), "model accepts {b:?} as {s:?}");
    }
}
