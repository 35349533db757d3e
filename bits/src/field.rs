//! A common face for the three kinds of bitfield, the reference model of their byte form, and the
//! comparison of one bitfield with one sequence of booleans.

use mc::engine::hex;
use serde::de::value::{BorrowedStrDeserializer, Error as DeError, StrDeserializer, StringDeserializer};
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::Serialize;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use std::collections::hash_map::DefaultHasher;
use std::any::Any;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use typenum::Unsigned;

pub type Raw = SmallVec<[u8; 128]>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    List(usize),
    Vect(usize),
    Dyn,
}

impl Kind {
    pub fn name(self) -> String {
        match self {
            Kind::List(n) => format!("BitList<{n}>"),
            Kind::Vect(n) => format!("BitVector<{n}>"),
            Kind::Dyn => "BitVectorDynamic".into(),
        }
    }
    /// May a value of this kind have `len` bits?
    pub fn allows(self, len: usize) -> bool {
        match self {
            Kind::List(n) => len <= n,
            Kind::Vect(n) => len == n,
            Kind::Dyn => len > 0 && len % 8 == 0,
        }
    }
    /// All lengths up to `max` that a value may have.
    pub fn lengths(self, max: usize) -> Vec<usize> {
        (0..=max).filter(|l| self.allows(*l)).collect()
    }
}

pub fn bit_at(b: &[u8], i: usize) -> bool {
    b[i / 8] >> (i % 8) & 1 == 1
}

/// The bytes holding `bits`, lowest index in the lowest bit, at least one byte.
pub fn pack(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; bits.len().div_ceil(8).max(1)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            out[i / 8] |= 1 << (i % 8);
        }
    }
    out
}

/// The SSZ encoding.
pub fn encoding(k: Kind, bits: &[bool]) -> Vec<u8> {
    match k {
        Kind::List(_) => {
            let mut b = bits.to_vec();
            b.push(true);
            pack(&b)
        }
        _ => pack(bits),
    }
}

/// What a byte string means, `None` if nothing. Written from the validity rules, not from
/// `encoding`.
pub fn meaning(k: Kind, b: &[u8]) -> Option<Vec<bool>> {
    match k {
        Kind::List(n) => {
            let last = *b.last()?;
            if last == 0 {
                return None;
            }
            let mut top = (b.len() - 1) * 8;
            for j in 0..8 {
                if last >> j & 1 == 1 {
                    top = (b.len() - 1) * 8 + j;
                }
            }
            if top > n {
                return None;
            }
            Some((0..top).map(|i| bit_at(b, i)).collect())
        }
        Kind::Vect(n) => {
            let want = if n == 0 { 1 } else { (n + 7) / 8 };
            if b.len() != want {
                return None;
            }
            for i in n..b.len() * 8 {
                if bit_at(b, i) {
                    return None;
                }
            }
            Some((0..n).map(|i| bit_at(b, i)).collect())
        }
        Kind::Dyn => {
            if b.is_empty() {
                return None;
            }
            Some((0..b.len() * 8).map(|i| bit_at(b, i)).collect())
        }
    }
}

pub trait Field:
    Sized + Clone + Debug + Eq + Hash + Encode + Decode + Serialize + DeserializeOwned + Send + Sync + 'static
{
    fn kind() -> Kind;
    fn create(len: usize) -> Result<Self, ()>;
    fn from_bytes_api(b: Raw) -> Result<Self, ()>;
    fn into_bytes_api(self) -> Raw;
    fn union_(&self, o: &Self) -> Result<Self, ()>;
    fn intersection_(&self, o: &Self) -> Result<Self, ()>;
    /// Not offered by dynamic bitvectors.
    fn subset_(&self, o: &Self) -> Option<bool>;

    fn set_(&mut self, i: usize, v: bool) -> Result<(), ()>;
    fn get_(&self, i: usize) -> Result<bool, ()>;
    fn len_(&self) -> usize;
    fn is_empty_(&self) -> bool;
    fn iter_(&self) -> Vec<bool>;
    fn count_(&self) -> usize;
    fn highest_(&self) -> Option<usize>;
    fn is_zero_(&self) -> bool;
    fn slice_(&self) -> &[u8];
    fn raw_(self) -> Raw;
    /// Every other way to drive the iterator.
    fn iter_check_(&self, m: &[bool]) -> Result<(), String>;
    fn shift_(&mut self, n: usize) -> Result<(), ()>;
    fn difference_(&self, o: &Self) -> Self;
    fn difference_in_(&mut self, o: &Self);
    fn default_() -> Option<Self> {
        None
    }
    fn capacity_() -> Option<usize> {
        None
    }
    fn resize_same_(&self) -> Option<Result<Self, ()>> {
        None
    }
}

/// An iterator driven in every way but `next` to the end.
fn drive<I: Iterator<Item = bool>>(it: impl Fn() -> I, m: &[bool]) -> Result<(), String> {
    let n = m.len();
    let same = |what: &str, got: Option<bool>, exp: Option<bool>| if got == exp { Ok(()) } else { Err(format!("iter(): {what} is {got:?}, expected {exp:?} in {}", show(m))) };
    let top = n + 2 + (n / 8 + 1) * 8;
    for k in if n <= 40 { (0..=n + 9).collect() } else { interesting(n, 0) }.into_iter().chain([top, usize::MAX]) {
        let mut i = it();
        same(&format!("nth({k})"), i.nth(k), m.get(k).copied())?;
        if k < n {
            same(&format!("next() after nth({k})"), i.next(), m.get(k + 1).copied())?;
            let (lo, hi) = i.size_hint();
            let left = (n - k).saturating_sub(2);
            if lo > left || hi.is_some_and(|h| h < left) {
                return Err(format!("iter(): size_hint() is {:?} with {left} bits left", (lo, hi)));
            }
        }
        let mut i = it();
        i.by_ref().take(k.min(n)).for_each(drop);
        same(&format!("next() after {} bits", k.min(n)), i.next(), m.get(k).copied())?;
    }
    let (lo, hi) = it().size_hint();
    if lo > n || hi.is_some_and(|h| h < n) {
        return Err(format!("iter(): size_hint() is {:?} with {n} bits", (lo, hi)));
    }
    if it().take(1 << 25).count() != n || it().count() != n {
        return Err(format!("iter(): count() is {} with {n} bits", it().count()));
    }
    same("last()", it().last(), m.last().copied())?;
    let p = m.iter().position(|b| *b);
    if it().position(|b| b) != p {
        return Err(format!("iter(): position of the first bit set is {:?} in {}", it().position(|b| b), show(m)));
    }
    for s in [2, 8, 9] {
        if !it().step_by(s).eq(m.iter().copied().step_by(s)) || !it().skip(s).eq(m.iter().copied().skip(s)) {
            return Err(format!("iter(): every {s}th bit, or those from {s} on, of {}", show(m)));
        }
    }
    if it().fold(0usize, |a, b| a * 2 % 1_000_003 + b as usize) != m.iter().fold(0usize, |a, b| a * 2 % 1_000_003 + *b as usize) {
        return Err(format!("iter(): fold over {}", show(m)));
    }
    Ok(())
}

macro_rules! common {
    () => {
        fn set_(&mut self, i: usize, v: bool) -> Result<(), ()> {
            self.set(i, v).map_err(|_| ())
        }
        fn get_(&self, i: usize) -> Result<bool, ()> {
            self.get(i).map_err(|_| ())
        }
        fn len_(&self) -> usize {
            self.len()
        }
        fn is_empty_(&self) -> bool {
            self.is_empty()
        }
        fn iter_(&self) -> Vec<bool> {
            // A broken iterator must not run forever.
            self.iter().take(1 << 25).collect()
        }
        fn iter_check_(&self, m: &[bool]) -> Result<(), String> {
            drive(|| self.iter(), m)
        }
        fn count_(&self) -> usize {
            self.num_set_bits()
        }
        fn highest_(&self) -> Option<usize> {
            self.highest_set_bit()
        }
        fn is_zero_(&self) -> bool {
            self.is_zero()
        }
        fn slice_(&self) -> &[u8] {
            self.as_slice()
        }
        fn raw_(self) -> Raw {
            self.into_raw_bytes()
        }
        fn shift_(&mut self, n: usize) -> Result<(), ()> {
            self.shift_up(n).map_err(|_| ())
        }
        fn difference_(&self, o: &Self) -> Self {
            self.difference(o)
        }
        fn difference_in_(&mut self, o: &Self) {
            self.difference_inplace(o)
        }
    };
}

pub trait Cap: Unsigned + Clone + Debug + Eq + Send + Sync + 'static {}
impl<T: Unsigned + Clone + Debug + Eq + Send + Sync + 'static> Cap for T {}

impl<N: Cap> Field for BitList<N> {
    fn kind() -> Kind {
        Kind::List(N::to_usize())
    }
    fn create(len: usize) -> Result<Self, ()> {
        Self::with_capacity(len).map_err(|_| ())
    }
    fn from_bytes_api(b: Raw) -> Result<Self, ()> {
        Self::from_bytes(b).map_err(|_| ())
    }
    fn into_bytes_api(self) -> Raw {
        self.into_bytes()
    }
    fn union_(&self, o: &Self) -> Result<Self, ()> {
        Ok(self.union(o))
    }
    fn intersection_(&self, o: &Self) -> Result<Self, ()> {
        Ok(self.intersection(o))
    }
    fn subset_(&self, o: &Self) -> Option<bool> {
        Some(self.is_subset(o))
    }
    fn capacity_() -> Option<usize> {
        Some(Self::max_len())
    }
    fn resize_same_(&self) -> Option<Result<Self, ()>> {
        Some(self.resize::<N>().map_err(|_| ()))
    }
    common!();
}

impl<N: Cap> Field for BitVector<N> {
    fn kind() -> Kind {
        Kind::Vect(N::to_usize())
    }
    fn create(len: usize) -> Result<Self, ()> {
        if len != N::to_usize() {
            return Err(());
        }
        Ok(Self::new())
    }
    fn from_bytes_api(b: Raw) -> Result<Self, ()> {
        Self::from_bytes(b).map_err(|_| ())
    }
    fn into_bytes_api(self) -> Raw {
        self.into_bytes()
    }
    fn union_(&self, o: &Self) -> Result<Self, ()> {
        Ok(self.union(o))
    }
    fn intersection_(&self, o: &Self) -> Result<Self, ()> {
        Ok(self.intersection(o))
    }
    fn subset_(&self, o: &Self) -> Option<bool> {
        Some(self.is_subset(o))
    }
    fn default_() -> Option<Self> {
        Some(Self::default())
    }
    fn capacity_() -> Option<usize> {
        Some(Self::capacity())
    }
    common!();
}

impl Field for BitVectorDynamic {
    fn kind() -> Kind {
        Kind::Dyn
    }
    fn create(len: usize) -> Result<Self, ()> {
        Self::new(len).map_err(|_| ())
    }
    fn from_bytes_api(b: Raw) -> Result<Self, ()> {
        let len = b.len() * 8;
        Self::from_bytes_with_len(b, len).map_err(|_| ())
    }
    fn into_bytes_api(self) -> Raw {
        self.into_bytes()
    }
    fn union_(&self, o: &Self) -> Result<Self, ()> {
        self.union(o).map_err(|_| ())
    }
    fn intersection_(&self, o: &Self) -> Result<Self, ()> {
        self.intersection(o).map_err(|_| ())
    }
    fn subset_(&self, _: &Self) -> Option<bool> {
        None
    }
    common!();
}

// ------------------------------------------------------------------------------------------------
// The same with the type erased, so that the explorers are compiled once.
// ------------------------------------------------------------------------------------------------

pub trait Obj: Send + Sync {
    fn any(&self) -> &dyn Any;
    fn kind(&self) -> Kind;
    fn dup(&self) -> Bx;
    fn become_clone(&mut self, o: &dyn Obj);
    fn iter_check(&self, m: &[bool]) -> Result<(), String>;
    fn same(&self, o: &dyn Obj) -> bool;
    fn differs(&self, o: &dyn Obj) -> bool;
    fn hash_value(&self) -> u64;
    fn text(&self) -> String;
    fn ssz(&self) -> Vec<u8>;
    fn ssz_onto(&self, buf: &mut Vec<u8>);
    fn ssz_len(&self) -> usize;
    fn json(&self) -> Result<String, String>;
    fn json_value(&self) -> Result<serde_json::Value, String>;
    fn only_str(&self) -> Result<String, String>;
    fn raw(&self) -> Raw;
    fn into_bytes(&self) -> Raw;
    fn union(&self, o: &dyn Obj) -> Result<Bx, ()>;
    fn intersection(&self, o: &dyn Obj) -> Result<Bx, ()>;
    fn subset(&self, o: &dyn Obj) -> Option<bool>;
    fn set(&mut self, i: usize, v: bool) -> Result<(), ()>;
    fn get(&self, i: usize) -> Result<bool, ()>;
    fn len(&self) -> usize;
    fn empty(&self) -> bool;
    fn bits(&self) -> Vec<bool>;
    fn count(&self) -> usize;
    fn highest(&self) -> Option<usize>;
    fn zero(&self) -> bool;
    fn slice(&self) -> &[u8];
    fn shift(&mut self, n: usize) -> Result<(), ()>;
    fn difference(&self, o: &dyn Obj) -> Bx;
    fn difference_in(&mut self, o: &dyn Obj);
}

pub struct Bx(pub Box<dyn Obj>);

fn down<F: Field>(o: &dyn Obj) -> &F {
    o.any().downcast_ref().expect("same type")
}
fn bx<F: Field>(f: F) -> Bx {
    Bx(Box::new(f))
}

impl<F: Field> Obj for F {
    fn any(&self) -> &dyn Any {
        self
    }
    fn kind(&self) -> Kind {
        F::kind()
    }
    fn dup(&self) -> Bx {
        bx(self.clone())
    }
    fn become_clone(&mut self, o: &dyn Obj) {
        self.clone_from(down::<F>(o))
    }
    fn iter_check(&self, m: &[bool]) -> Result<(), String> {
        self.iter_check_(m)
    }
    fn same(&self, o: &dyn Obj) -> bool {
        self == down::<F>(o)
    }
    #[allow(clippy::partialeq_ne_impl)]
    fn differs(&self, o: &dyn Obj) -> bool {
        self != down::<F>(o)
    }
    fn hash_value(&self) -> u64 {
        let mut h = DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
    fn text(&self) -> String {
        format!("{self:?}")
    }
    fn ssz(&self) -> Vec<u8> {
        self.as_ssz_bytes()
    }
    fn ssz_onto(&self, buf: &mut Vec<u8>) {
        self.ssz_append(buf)
    }
    fn ssz_len(&self) -> usize {
        self.ssz_bytes_len()
    }
    fn json(&self) -> Result<String, String> {
        serde_json::to_string(self).map_err(|e| e.to_string())
    }
    fn json_value(&self) -> Result<serde_json::Value, String> {
        serde_json::to_value(self).map_err(|e| e.to_string())
    }
    fn only_str(&self) -> Result<String, String> {
        self.serialize(crate::c18::OnlyStr).map_err(|e| e.to_string())
    }
    fn raw(&self) -> Raw {
        self.clone().raw_()
    }
    fn into_bytes(&self) -> Raw {
        self.clone().into_bytes_api()
    }
    fn union(&self, o: &dyn Obj) -> Result<Bx, ()> {
        self.union_(down::<F>(o)).map(bx)
    }
    fn intersection(&self, o: &dyn Obj) -> Result<Bx, ()> {
        self.intersection_(down::<F>(o)).map(bx)
    }
    fn subset(&self, o: &dyn Obj) -> Option<bool> {
        self.subset_(down::<F>(o))
    }
    fn set(&mut self, i: usize, v: bool) -> Result<(), ()> {
        self.set_(i, v)
    }
    fn get(&self, i: usize) -> Result<bool, ()> {
        self.get_(i)
    }
    fn len(&self) -> usize {
        self.len_()
    }
    fn empty(&self) -> bool {
        self.is_empty_()
    }
    fn bits(&self) -> Vec<bool> {
        self.iter_()
    }
    fn count(&self) -> usize {
        self.count_()
    }
    fn highest(&self) -> Option<usize> {
        self.highest_()
    }
    fn zero(&self) -> bool {
        self.is_zero_()
    }
    fn slice(&self) -> &[u8] {
        self.slice_()
    }
    fn shift(&mut self, n: usize) -> Result<(), ()> {
        self.shift_(n)
    }
    fn difference(&self, o: &dyn Obj) -> Bx {
        bx(self.difference_(down::<F>(o)))
    }
    fn difference_in(&mut self, o: &dyn Obj) {
        self.difference_in_(down::<F>(o))
    }
}

impl Clone for Bx {
    fn clone(&self) -> Bx {
        self.0.dup()
    }
}
impl PartialEq for Bx {
    fn eq(&self, o: &Bx) -> bool {
        self.0.same(&*o.0)
    }
    #[allow(clippy::partialeq_ne_impl)]
    fn ne(&self, o: &Bx) -> bool {
        self.0.differs(&*o.0)
    }
}
impl Debug for Bx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0.text())
    }
}

impl Bx {
    pub fn kind(&self) -> Kind {
        self.0.kind()
    }
    pub fn union_(&self, o: &Bx) -> Result<Bx, ()> {
        self.0.union(&*o.0)
    }
    pub fn intersection_(&self, o: &Bx) -> Result<Bx, ()> {
        self.0.intersection(&*o.0)
    }
    pub fn subset_(&self, o: &Bx) -> Option<bool> {
        self.0.subset(&*o.0)
    }
    pub fn difference_(&self, o: &Bx) -> Bx {
        self.0.difference(&*o.0)
    }
    pub fn difference_in_(&mut self, o: &Bx) {
        self.0.difference_in(&*o.0)
    }
    pub fn set_(&mut self, i: usize, v: bool) -> Result<(), ()> {
        self.0.set(i, v)
    }
    pub fn get_(&self, i: usize) -> Result<bool, ()> {
        self.0.get(i)
    }
    pub fn len_(&self) -> usize {
        self.0.len()
    }
    pub fn shift_(&mut self, n: usize) -> Result<(), ()> {
        self.0.shift(n)
    }
    pub fn slice_(&self) -> &[u8] {
        self.0.slice()
    }
    pub fn iter_(&self) -> Vec<bool> {
        self.0.bits()
    }
    pub fn as_ssz_bytes(&self) -> Vec<u8> {
        self.0.ssz()
    }
}

/// What a type offers without a value.
pub trait Maker: Send + Sync {
    fn kind(&self) -> Kind;
    fn create(&self, len: usize) -> Result<Bx, ()>;
    fn default(&self) -> Option<Bx>;
    fn capacity(&self) -> Option<usize>;
    fn from_bytes_api(&self, b: Raw) -> Result<Bx, ()>;
    fn from_ssz(&self, b: &[u8]) -> Result<Bx, ()>;
    fn list_from_ssz(&self, b: &[u8]) -> Result<Vec<Bx>, ()>;
    fn list_ssz(&self, l: &[Bx]) -> Vec<u8>;
    fn fixed_len(&self) -> Option<usize>;
    fn de_str(&self, s: &str) -> Result<Bx, String>;
    fn de_string(&self, s: &str) -> Result<Bx, String>;
    fn de_borrowed(&self, s: &str) -> Result<Bx, String>;
    fn json_str(&self, s: &str) -> Result<Bx, String>;
    fn json_slice(&self, s: &[u8]) -> Result<Bx, String>;
    fn json_value(&self, s: serde_json::Value) -> Result<Bx, String>;
    fn json_reader(&self, s: &[u8]) -> Result<Bx, String>;
    /// Inside other serde types: the text must be as given, and come back as the same values.
    fn nested(&self, xs: &[Bx], hex: &[String]) -> Result<u64, String>;
    fn resize_same(&self, x: &Bx) -> Option<Result<Bx, ()>>;
}

struct Of<F>(PhantomData<F>);

fn text<F, E: std::fmt::Display>(r: Result<F, E>) -> Result<Bx, String>
where
    F: Field,
{
    r.map(bx).map_err(|e| e.to_string())
}

impl<F: Field> Maker for Of<F> {
    fn kind(&self) -> Kind {
        F::kind()
    }
    fn create(&self, len: usize) -> Result<Bx, ()> {
        F::create(len).map(bx)
    }
    fn default(&self) -> Option<Bx> {
        F::default_().map(bx)
    }
    fn capacity(&self) -> Option<usize> {
        F::capacity_()
    }
    fn from_bytes_api(&self, b: Raw) -> Result<Bx, ()> {
        F::from_bytes_api(b).map(bx)
    }
    fn from_ssz(&self, b: &[u8]) -> Result<Bx, ()> {
        F::from_ssz_bytes(b).map(bx).map_err(|_| ())
    }
    fn list_from_ssz(&self, b: &[u8]) -> Result<Vec<Bx>, ()> {
        Vec::<F>::from_ssz_bytes(b).map_err(|_| ()).map(|v| v.into_iter().map(bx).collect())
    }
    fn list_ssz(&self, l: &[Bx]) -> Vec<u8> {
        l.iter().map(|x| down::<F>(&*x.0).clone()).collect::<Vec<F>>().as_ssz_bytes()
    }
    fn fixed_len(&self) -> Option<usize> {
        if <F as Decode>::is_ssz_fixed_len() {
            Some(<F as Decode>::ssz_fixed_len())
        } else {
            None
        }
    }
    fn de_str(&self, s: &str) -> Result<Bx, String> {
        let d: StrDeserializer<DeError> = s.into_deserializer();
        text(F::deserialize(d))
    }
    fn de_string(&self, s: &str) -> Result<Bx, String> {
        let d: StringDeserializer<DeError> = s.to_string().into_deserializer();
        text(F::deserialize(d))
    }
    fn de_borrowed(&self, s: &str) -> Result<Bx, String> {
        text(F::deserialize(BorrowedStrDeserializer::<DeError>::new(s)))
    }
    fn json_str(&self, s: &str) -> Result<Bx, String> {
        text(serde_json::from_str::<F>(s))
    }
    fn json_slice(&self, s: &[u8]) -> Result<Bx, String> {
        text(serde_json::from_slice::<F>(s))
    }
    fn json_value(&self, s: serde_json::Value) -> Result<Bx, String> {
        text(serde_json::from_value::<F>(s))
    }
    fn json_reader(&self, s: &[u8]) -> Result<Bx, String> {
        // A reader that hands over one byte at a time: the text is never borrowed.
        struct Slow<'a>(&'a [u8]);
        impl std::io::Read for Slow<'_> {
            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                if self.0.is_empty() || b.is_empty() {
                    return Ok(0);
                }
                b[0] = self.0[0];
                self.0 = &self.0[1..];
                Ok(1)
            }
        }
        text(serde_json::from_reader::<_, F>(Slow(s)))
    }
    fn nested(&self, xs: &[Bx], hex: &[String]) -> Result<u64, String> {
        use std::collections::BTreeMap;
        let own: Vec<F> = xs.iter().map(|x| down::<F>(&*x.0).clone()).collect();
        let q: Vec<String> = hex.iter().map(|h| format!("\"{h}\"")).collect();
        let mut n = 0;
        fn there_and_back<T: Serialize + DeserializeOwned + PartialEq>(n: &mut u64, what: &str, v: T, exp: String) -> Result<(), String> {
            let s = serde_json::to_string(&v).map_err(|e| format!("{what} does not serialize: {e}"))?;
            if s != exp {
                return Err(format!("{what} serializes as {}, expected {}", clip(s.as_bytes()), clip(exp.as_bytes())));
            }
            let pretty = serde_json::to_vec_pretty(&v).map_err(|e| format!("{what} does not serialize: {e}"))?;
            let val = serde_json::to_value(&v).map_err(|e| format!("{what} does not serialize: {e}"))?;
            let mut w = vec![];
            serde_json::to_writer(&mut w, &v).map_err(|e| format!("{what} does not serialize: {e}"))?;
            if w != exp.as_bytes() {
                return Err(format!("{what} is written as {}, expected {}", clip(&w), clip(exp.as_bytes())));
            }
            for (how, r) in [
                ("from_str", serde_json::from_str::<T>(&s)),
                ("from_slice", serde_json::from_slice::<T>(&pretty)),
                ("from_reader", serde_json::from_reader::<_, T>(&pretty[..])),
                ("from_value", serde_json::from_value::<T>(val)),
            ] {
                *n += 1;
                match r {
                    Ok(w) if w == v => (),
                    Ok(_) => return Err(format!("{what} comes back different by {how}")),
                    Err(e) => return Err(format!("{what} does not come back by {how}: {e}")),
                }
            }
            Ok(())
        }
        there_and_back(&mut n, "a list", own.clone(), format!("[{}]", q.join(",")))?;
        for (x, q) in own.iter().zip(&q) {
            there_and_back(&mut n, "an option", Some(x.clone()), q.clone())?;
            there_and_back(&mut n, "a tuple", (7u8, x.clone(), Some(x.clone()), None::<F>, [x.clone()]), format!("[7,{q},{q},null,[{q}]]"))?;
            there_and_back(&mut n, "a box", Box::new(x.clone()), q.clone())?;
            let m: BTreeMap<String, Vec<F>> = [("a".to_string(), vec![x.clone(), x.clone()]), ("b".to_string(), vec![])].into();
            there_and_back(&mut n, "a map", m, format!("{{\"a\":[{q},{q}],\"b\":[]}}"))?;
            // As the key of a map, where JSON wants a string.
            let k = std::collections::HashMap::from([(x.clone(), 1u8)]);
            let (text, back) = (serde_json::to_string(&k).map_err(|e| format!("a map key does not serialize: {e}"))?, format!("{{{q}:1}}"));
            if text != back {
                return Err(format!("a map key serializes as {}, expected {}", clip(text.as_bytes()), clip(back.as_bytes())));
            }
            match serde_json::from_str::<std::collections::HashMap<F, u8>>(&text) {
                Ok(b) if b == k => (),
                _ => return Err("a map key does not come back".into()),
            }
            // `deserialize_in_place` onto something else.
            let mut y = own[0].clone();
            let mut d = serde_json::Deserializer::from_str(q);
            serde::Deserialize::deserialize_in_place(&mut d, &mut y).map_err(|e| format!("in place: {e}"))?;
            if y != *x {
                return Err("deserialize_in_place gives a different value".into());
            }
            n += 3;
        }
        Ok(n)
    }
    fn resize_same(&self, x: &Bx) -> Option<Result<Bx, ()>> {
        down::<F>(&*x.0).resize_same_().map(|r| r.map(bx))
    }
}

/// A bitfield type.
#[derive(Clone, Copy)]
pub struct Ty(&'static dyn Maker);

impl std::ops::Deref for Ty {
    type Target = dyn Maker;
    fn deref(&self) -> &(dyn Maker + 'static) {
        self.0
    }
}

impl Ty {
    pub fn new<F: Field>() -> Ty {
        Ty(Box::leak(Box::new(Of::<F>(PhantomData))))
    }
    pub fn of(&self, bits: &[bool]) -> Bx {
        let mut f = self.create(bits.len()).expect("length allowed");
        for (i, b) in bits.iter().enumerate() {
            if *b {
                f.set_(i, true).expect("in range");
            }
        }
        f
    }
}

pub fn resize<N: Cap, M: Cap>(x: &Bx) -> Result<Bx, ()> {
    down::<BitList<N>>(&*x.0).resize::<M>().map(bx).map_err(|_| ())
}

pub fn show(bits: &[bool]) -> String {
    if bits.is_empty() {
        return "(no bits)".into();
    }
    if bits.len() <= 40 {
        return bits.iter().map(|b| if *b { '1' } else { '0' }).collect();
    }
    if bits.len() > 10_000 {
        let (a, z) = (bits.iter().position(|b| *b), bits.iter().rposition(|b| *b));
        return format!("{} bits, {} of them set, first {a:?}, last {z:?}", bits.len(), bits.iter().filter(|b| **b).count());
    }
    let set: Vec<usize> = (0..bits.len()).filter(|i| bits[*i]).collect();
    if set.len() <= 12 {
        return format!("{} bits, set {:?}", bits.len(), set);
    }
    let clear: Vec<usize> = (0..bits.len()).filter(|i| !bits[*i]).collect();
    if clear.len() <= 12 {
        return format!("{} bits, all set but {:?}", bits.len(), clear);
    }
    format!("{} bits {}", bits.len(), hex(&pack(bits)))
}

pub fn clip(b: &[u8]) -> String {
    if b.len() <= 1000 {
        return hex(b);
    }
    format!("{} bytes {}..{}", b.len(), hex(&b[..32]), hex(&b[b.len() - 32..]))
}

macro_rules! want {
    ($what:expr, $got:expr, $exp:expr) => {{
        let (g, e) = ($got, $exp);
        if g != e {
            return Err(format!("{} is {:?}, expected {:?}", $what, g, e));
        }
    }};
}

/// The byte view is minimal and holds exactly the bits.
pub fn valid(x: &Bx, m: &[bool]) -> Result<(), String> {
    want!("len()", x.len_(), m.len());
    if !x.kind().allows(m.len()) {
        return Err(format!("{} with {} bits", x.kind().name(), m.len()));
    }
    let p = pack(m);
    if x.slice_() != &p[..] {
        return Err(format!("as_slice() is {}, expected {} for {}", clip(x.slice_()), clip(&p), show(m)));
    }
    Ok(())
}

/// Every observation equals that of the sequence of booleans.
pub fn observe(x: &Bx, m: &[bool]) -> Result<(), String> {
    valid(x, m)?;
    let n = m.len();
    want!("is_empty()", x.0.empty(), n == 0);
    for (i, b) in m.iter().enumerate() {
        if x.get_(i) != Ok(*b) {
            return Err(format!("get({i}) is {:?} in {}", x.get_(i), show(m)));
        }
    }
    for i in [n, n + 1, n | 7, n + 7, n + 8, n + 64, 8 * x.slice_().len(), usize::MAX - 7, usize::MAX] {
        if i >= n && x.get_(i).is_ok() {
            return Err(format!("get({i}) is {:?} with {n} bits", x.get_(i)));
        }
    }
    let it = x.iter_();
    if it != m {
        return Err(format!("iter() yields {}, expected {}", show(&it), show(m)));
    }
    want!("num_set_bits()", x.0.count(), m.iter().filter(|b| **b).count());
    want!("highest_set_bit()", x.0.highest(), m.iter().rposition(|b| *b));
    want!("is_zero()", x.0.zero(), m.iter().all(|b| !*b));
    let enc = encoding(x.kind(), m);
    let got = x.as_ssz_bytes();
    if got != enc {
        return Err(format!("encoding is {}, expected {} for {}", clip(&got), clip(&enc), show(m)));
    }
    want!("ssz_bytes_len()", x.0.ssz_len(), enc.len());
    Ok(())
}

/// Equality and hash agree with those of a bitfield made directly from the bits.
pub fn equal(x: &Bx, canon: &Bx, what: &str) -> Result<(), String> {
    if !(x == canon) || !(canon == x) || x != canon {
        return Err(format!("{what} holds the same bits but is not equal: {x:?} and {canon:?}"));
    }
    want!(format!("hash of {what}"), x.0.hash_value(), canon.0.hash_value());
    Ok(())
}

/// Heap-allocated or inline storage, with the same content.
pub fn raw(b: &[u8], route: usize) -> Raw {
    match route {
        0 => Raw::from_slice(b),
        1 => Raw::from_vec(b.to_vec()),
        _ => {
            let mut r = Raw::with_capacity(4 * b.len() + 300);
            r.extend_from_slice(b);
            r
        }
    }
}

/// Patterns for lengths too large for all values: zero, ones, alternations, each single bit set or
/// clear (all of them up to `all_up_to` bits, else those near byte, word, storage and end
/// boundaries), runs.
pub fn patterns(len: usize, all_up_to: usize) -> Vec<Vec<bool>> {
    let mut out: Vec<Vec<bool>> = vec![
        vec![false; len],
        vec![true; len],
        (0..len).map(|i| i % 2 == 0).collect(),
        (0..len).map(|i| i % 2 == 1).collect(),
        (0..len).map(|i| i % 3 == 0 || i % 7 == 2).collect(),
        (0..len).map(|i| (i.wrapping_mul(2654435761) >> 7) & 1 == 1).collect(),
    ];
    for i in interesting(len, all_up_to) {
        if i < len {
            let mut v = vec![false; len];
            v[i] = true;
            out.push(v);
            let mut v = vec![true; len];
            v[i] = false;
            out.push(v);
            out.push((0..len).map(|j| j < i).collect());
            out.push((0..len).map(|j| j >= i).collect());
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|v| seen.insert(v.clone()));
    out
}

/// A few patterns for lengths beyond 2^16: the whole, the ends, and around bit 2^16 and half way.
pub fn few(len: usize) -> Vec<Vec<bool>> {
    let mut out: Vec<Vec<bool>> = vec![
        vec![false; len],
        vec![true; len],
        (0..len).map(|i| i % 3 == 0 || i % 7 == 2).collect(),
        (0..len).map(|i| (i.wrapping_mul(2654435761) >> 7) & 1 == 1).collect(),
    ];
    for i in [0, 65527, 65535, 65536, 65537, len.wrapping_sub(9), len.wrapping_sub(2), len.wrapping_sub(1)] {
        if i < len {
            let mut v = vec![false; len];
            v[i] = true;
            out.push(v);
            let mut v = vec![true; len];
            v[i] = false;
            out.push(v);
            out.push((0..len).map(|j| j <= i).collect());
            out.push((0..len).map(|j| j >= i).collect());
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|v| seen.insert(v.clone()));
    out
}

/// Lengths around 2^16 and the capacity.
pub fn few_lengths(k: Kind) -> Vec<usize> {
    let n = match k {
        Kind::Vect(n) => return vec![n],
        Kind::List(n) => n,
        Kind::Dyn => return vec![8, 65528, 65536, 65544, 131072, (1 << 20) + 8],
    };
    let mut l = vec![0, 1, 1024, 65527, 65528, 65529, 65535, 65536, 65537, n - 8, n - 1, n];
    l.retain(|l| *l <= n);
    l.sort();
    l.dedup();
    l
}

/// Positions near boundaries, all up to `all_up_to`.
pub fn interesting(len: usize, all_up_to: usize) -> Vec<usize> {
    if len <= all_up_to {
        return (0..=len + 1).collect();
    }
    let mut v = vec![];
    for c in [0, 8, 16, 32, 64, 128, 256, 512, 1016, 1024, 1032, len / 2, len - len % 8, len] {
        for d in [-9i64, -8, -7, -1, 0, 1, 7] {
            let x = c as i64 + d;
            if x >= 0 && x as usize <= len + 1 {
                v.push(x as usize);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// All sequences of `len` booleans.
pub fn all_bits(len: usize) -> impl Iterator<Item = Vec<bool>> {
    (0..1u64 << len).map(move |x| (0..len).map(|i| x >> i & 1 == 1).collect())
}
