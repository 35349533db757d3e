//! Binding between model values and values of the real types, and the operations of the real code.

use crate::alloc::measure;
use crate::engine::guard;
use crate::model::{bitlist_bytes, bitvec_bytes, Schema, Val};
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::sync::Arc;
use typenum::Unsigned;

/// A real type with its schema.
pub trait Mc: Sized + 'static {
    fn schema() -> Schema;
    fn to_val(&self) -> Val;
    /// `None` if the value cannot be built through the public API.
    fn from_val(v: &Val) -> Option<Self>;
    /// (a, c): decoding n bytes needs at most a*n + c bytes of heap. Generous.
    fn heap() -> (f64, f64) {
        (0.0, 0.0)
    }
}

pub enum Dec {
    Ok(Val),
    Err,
    Panic(String),
}

pub struct Meta {
    pub enc_fixed: bool,
    pub enc_len: usize,
    pub dec_fixed: bool,
    pub dec_len: usize,
}

pub struct Raw {
    pub ok: bool,
    pub panic: Option<String>,
    pub peak: usize,
    pub calls: u64,
}

type Built<R> = Option<Result<R, String>>;

#[derive(Clone, Copy)]
/// The operations of one type. `None` results mean that the value could not be built.
pub struct Ops {
    pub name: &'static str,
    pub schema: fn() -> Schema,
    pub heap: fn() -> (f64, f64),
    pub enc: fn(&Val) -> Built<Vec<u8>>,
    pub dec: fn(&[u8]) -> Dec,
    /// Decode, then encode again.
    pub dec_enc: fn(&[u8]) -> Result<Option<Vec<u8>>, String>,
    /// Encode, decode, compare with `==`.
    pub rt: fn(&Val) -> Built<Result<(), String>>,
    /// Predicted and actual size.
    pub len: fn(&Val) -> Built<(usize, usize)>,
    pub meta: fn() -> Result<Meta, String>,
    pub raw: fn(&[u8]) -> Raw,
    pub entries: fn(&Val, &[u8], usize) -> Built<Vec<(&'static str, bool, Vec<u8>)>>,
}

impl std::fmt::Debug for Ops {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}

fn enc<T: Mc + Encode>(v: &Val) -> Built<Vec<u8>> {
    let x = T::from_val(v)?;
    Some(guard(|| x.as_ssz_bytes()))
}

fn dec<T: Mc + Decode>(b: &[u8]) -> Dec {
    match guard(|| T::from_ssz_bytes(b)) {
        Ok(Ok(x)) => Dec::Ok(x.to_val()),
        Ok(Err(_)) => Dec::Err,
        Err(p) => Dec::Panic(p),
    }
}

fn dec_enc<T: Mc + Encode + Decode>(b: &[u8]) -> Result<Option<Vec<u8>>, String> {
    guard(|| T::from_ssz_bytes(b).ok().map(|x| x.as_ssz_bytes()))
}

fn rt<T: Mc + Encode + Decode + PartialEq>(v: &Val) -> Built<Result<(), String>> {
    let x = T::from_val(v)?;
    Some(guard(|| {
        let b = x.as_ssz_bytes();
        match T::from_ssz_bytes(&b) {
            Err(e) => Err(format!("encodes to {} which fails to decode: {e:?}", crate::engine::hex(&b))),
            Ok(y) => {
                if x == y && y.to_val() == *v {
                    Ok(())
                } else {
                    Err(format!("encodes to {} which decodes to {:?}", crate::engine::hex(&b), y.to_val()))
                }
            }
        }
    }))
}

fn len<T: Mc + Encode>(v: &Val) -> Built<(usize, usize)> {
    let x = T::from_val(v)?;
    Some(guard(|| (x.ssz_bytes_len(), x.as_ssz_bytes().len())))
}

fn meta<T: Encode + Decode>() -> Result<Meta, String> {
    guard(|| Meta {
        enc_fixed: <T as Encode>::is_ssz_fixed_len(),
        enc_len: <T as Encode>::ssz_fixed_len(),
        dec_fixed: <T as Decode>::is_ssz_fixed_len(),
        dec_len: <T as Decode>::ssz_fixed_len(),
    })
}

fn raw<T: Decode>(b: &[u8]) -> Raw {
    let (r, peak, calls) = measure(|| guard(|| T::from_ssz_bytes(b).is_ok()));
    match r {
        Ok(ok) => Raw { ok, panic: None, peak, calls },
        Err(p) => Raw { ok: false, panic: Some(p), peak, calls },
    }
}

fn append_to<T: Encode + ?Sized>(x: &T, prefix: &[u8], spare: usize) -> Vec<u8>
where
    T: Sized,
{
    let mut buf = Vec::with_capacity(prefix.len() + spare);
    buf.extend_from_slice(prefix);
    x.ssz_append(&mut buf);
    buf
}

/// (entry point, appends to the prefix, bytes)
fn entries<T: Mc + Encode>(v: &Val, prefix: &[u8], spare: usize) -> Built<Vec<(&'static str, bool, Vec<u8>)>> {
    let x = T::from_val(v)?;
    Some(guard(|| {
        let r = &x;
        let rr = &r;
        let mut out = vec![
            ("as_ssz_bytes", false, x.as_ssz_bytes()),
            ("ssz_append", true, append_to(&x, prefix, spare)),
            ("ssz_encode", false, ssz::ssz_encode(&x)),
            ("<&T>::as_ssz_bytes", false, <&T as Encode>::as_ssz_bytes(rr)),
            ("<&T>::ssz_append", true, append_to::<&T>(rr, prefix, spare)),
            ("ssz_encode::<&T>", false, ssz::ssz_encode(rr)),
            ("<&&T>::ssz_append", true, append_to::<&&T>(&rr, prefix, spare)),
        ];
        // The manual container encoder with one field of this type, and with it as a middle field.
        {
            let mut buf = prefix.to_vec();
            buf.reserve(spare);
            let mut e = ssz::SszEncoder::container(&mut buf, <T as Encode>::ssz_fixed_len());
            e.append(&x);
            e.finalize();
            out.push(("SszEncoder[T]", true, buf));
        }
        {
            let mut buf = prefix.to_vec();
            let y: u16 = 0x0201;
            let mut e = ssz::SszEncoder::container(&mut buf, 4 + 2 * <T as Encode>::ssz_fixed_len());
            e.append(&y);
            e.append(&&x);
            e.append(&y);
            e.append_parameterized(<T as Encode>::is_ssz_fixed_len(), |b| x.ssz_append(b));
            e.finalize();
            out.push(("SszEncoder[u16,T,u16,T]", true, buf));
        }
        let a = Arc::new(x);
        out.push(("Arc::as_ssz_bytes", false, a.as_ssz_bytes()));
        out.push(("Arc::ssz_append", true, append_to(&a, prefix, spare)));
        out.push(("<&Arc<T>>::ssz_append", true, append_to(&&a, prefix, spare)));
        out
    }))
}

pub const ENC: u32 = 1;
pub const DEC: u32 = 2;
pub const DEC_ENC: u32 = 4;
pub const RT: u32 = 8;
pub const LEN: u32 = 16;
pub const META: u32 = 32;
pub const RAW: u32 = 64;
pub const ENTRIES: u32 = 128;
pub const ALL: u32 = 255;

/// The operations in `mask`; only those are compiled.
pub const fn ops<T: Mc + Encode + Decode + PartialEq>(name: &'static str, mask: u32) -> Ops {
    Ops {
        name,
        schema: T::schema,
        heap: T::heap,
        enc: if mask & ENC != 0 { enc::<T> } else { |_| panic!("not compiled in") },
        dec: if mask & DEC != 0 { dec::<T> } else { |_| panic!("not compiled in") },
        dec_enc: if mask & DEC_ENC != 0 { dec_enc::<T> } else { |_| panic!("not compiled in") },
        rt: if mask & RT != 0 { rt::<T> } else { |_| panic!("not compiled in") },
        len: if mask & LEN != 0 { len::<T> } else { |_| panic!("not compiled in") },
        meta: if mask & META != 0 { meta::<T> } else { || panic!("not compiled in") },
        raw: if mask & RAW != 0 { raw::<T> } else { |_| panic!("not compiled in") },
        entries: if mask & ENTRIES != 0 { entries::<T> } else { |_, _, _| panic!("not compiled in") },
    }
}

/// `ops` for types that need no `PartialEq`: encoding, decoding and sizes. Encoding goes through
/// both a fresh and a used buffer.
pub const fn codec_ops<T: Mc + Encode + Decode>(name: &'static str) -> Ops {
    Ops {
        name,
        schema: T::schema,
        heap: T::heap,
        enc: enc_twice::<T>,
        dec: dec::<T>,
        dec_enc: |_| panic!("not compiled in"),
        rt: |_| panic!("not compiled in"),
        len: len::<T>,
        meta: meta::<T>,
        raw: |_| panic!("not compiled in"),
        entries: |_, _, _| panic!("not compiled in"),
    }
}

fn enc_twice<T: Mc + Encode>(v: &Val) -> Built<Vec<u8>> {
    let x = T::from_val(v)?;
    Some(
        guard(|| {
            let a = x.as_ssz_bytes();
            let mut b = vec![9, 8, 7];
            x.ssz_append(&mut b);
            (a, b)
        })
        .and_then(|(a, b)| {
            if b[..3] == [9, 8, 7] && b[3..] == a {
                Ok(a)
            } else {
                Err(format!("(no panic) encodes to {a:?} alone and leaves {b:?} after [9, 8, 7]"))
            }
        }),
    )
}

// ------------------------------------------------------------------------------------------------
// Implementations for the library's types
// ------------------------------------------------------------------------------------------------

macro_rules! uint {
    ($($t:ty: $n:expr),*) => {$(
        impl Mc for $t {
            fn schema() -> Schema {
                Schema::Uint($n)
            }
            fn to_val(&self) -> Val {
                Val::N(*self as u128)
            }
            fn from_val(v: &Val) -> Option<Self> {
                match v {
                    Val::N(x) => Some(<$t>::try_from(*x).unwrap()),
                    _ => panic!("{v:?}"),
                }
            }
        }
    )*};
}
uint!(u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, usize: 8);

impl Mc for bool {
    fn schema() -> Schema {
        Schema::Bool
    }
    fn to_val(&self) -> Val {
        Val::B(*self)
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::B(x) => Some(*x),
            _ => panic!("{v:?}"),
        }
    }
}

impl Mc for NonZeroUsize {
    fn schema() -> Schema {
        Schema::NonZero(8)
    }
    fn to_val(&self) -> Val {
        Val::N(self.get() as u128)
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::N(x) => NonZeroUsize::new(*x as usize),
            _ => panic!("{v:?}"),
        }
    }
}

fn limbs(lo: u128, hi: u128) -> [u64; 4] {
    [lo as u64, (lo >> 64) as u64, hi as u64, (hi >> 64) as u64]
}

impl Mc for U128 {
    fn schema() -> Schema {
        Schema::Uint(16)
    }
    fn to_val(&self) -> Val {
        let l = self.as_limbs();
        Val::N(l[0] as u128 + ((l[1] as u128) << 64))
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::N(x) => Some(U128::from_limbs([*x as u64, (*x >> 64) as u64])),
            _ => panic!("{v:?}"),
        }
    }
}

impl Mc for U256 {
    fn schema() -> Schema {
        Schema::Uint(32)
    }
    fn to_val(&self) -> Val {
        let l = self.as_limbs();
        Val::W(l[2] as u128 + ((l[3] as u128) << 64), l[0] as u128 + ((l[1] as u128) << 64))
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::W(hi, lo) => Some(U256::from_limbs(limbs(*lo, *hi))),
            _ => panic!("{v:?}"),
        }
    }
}

fn bytes_of(v: &Val) -> &[u8] {
    match v {
        Val::Bytes(b) => b,
        _ => panic!("{v:?}"),
    }
}

impl<const N: usize> Mc for [u8; N] {
    fn schema() -> Schema {
        Schema::BytesN(N)
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.to_vec())
    }
    fn from_val(v: &Val) -> Option<Self> {
        Some(bytes_of(v).try_into().unwrap())
    }
}

impl<const N: usize> Mc for FixedBytes<N> {
    fn schema() -> Schema {
        Schema::BytesN(N)
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.0.to_vec())
    }
    fn from_val(v: &Val) -> Option<Self> {
        Some(FixedBytes(bytes_of(v).try_into().unwrap()))
    }
}

impl Mc for Address {
    fn schema() -> Schema {
        Schema::BytesN(20)
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.0 .0.to_vec())
    }
    fn from_val(v: &Val) -> Option<Self> {
        let b: [u8; 20] = bytes_of(v).try_into().unwrap();
        Some(Address(FixedBytes(b)))
    }
}

impl Mc for Bloom {
    fn schema() -> Schema {
        Schema::BytesN(256)
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.0 .0.to_vec())
    }
    fn from_val(v: &Val) -> Option<Self> {
        let b: [u8; 256] = bytes_of(v).try_into().unwrap();
        Some(Bloom(FixedBytes(b)))
    }
}

impl Mc for Bytes {
    fn schema() -> Schema {
        Schema::ByteList
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.to_vec())
    }
    fn from_val(v: &Val) -> Option<Self> {
        Some(Bytes::from(bytes_of(v).to_vec()))
    }
    fn heap() -> (f64, f64) {
        (4.0, 128.0)
    }
}

fn bits_of(v: &Val) -> &[bool] {
    match v {
        Val::Bits(b) => b,
        _ => panic!("{v:?}"),
    }
}

/// The bits shown by a byte view.
pub fn view_bits(bytes: &[u8], len: usize) -> Vec<bool> {
    (0..len).map(|i| bytes.get(i / 8).map(|b| b >> (i % 8) & 1 == 1).unwrap_or(false)).collect()
}

macro_rules! build_bits {
    ($bits:expr, $new:expr, $from_bytes:expr) => {{
        let bits = $bits;
        // Through the setter; if that does not give the intended bits, through the byte constructor.
        if let Ok(Ok(mut x)) = guard(|| $new) {
            for (i, b) in bits.iter().enumerate() {
                if *b {
                    let _ = guard(|| x.set(i, true));
                }
            }
            if x.len() == bits.len() && x.as_slice() == &bitvec_bytes(bits)[..] {
                return Some(x);
            }
        }
        match guard(|| $from_bytes) {
            Ok(Ok(x)) if x.len() == bits.len() && x.as_slice() == &bitvec_bytes(bits)[..] => Some(x),
            _ => None,
        }
    }};
}

impl<N: Unsigned + Clone + 'static> Mc for BitVector<N> {
    fn schema() -> Schema {
        Schema::BitVec(N::to_usize())
    }
    fn to_val(&self) -> Val {
        Val::Bits(view_bits(self.as_slice(), self.len()))
    }
    fn from_val(v: &Val) -> Option<Self> {
        build_bits!(
            bits_of(v),
            Ok::<_, ssz::BitfieldError>(Self::new()),
            Self::from_bytes(SmallVec::from_vec(bitvec_bytes(bits_of(v))))
        )
    }
    fn heap() -> (f64, f64) {
        (6.0, 512.0)
    }
}

impl<N: Unsigned + Clone + 'static> Mc for BitList<N> {
    fn schema() -> Schema {
        Schema::BitList(N::to_usize())
    }
    fn to_val(&self) -> Val {
        Val::Bits(view_bits(self.as_slice(), self.len()))
    }
    fn from_val(v: &Val) -> Option<Self> {
        build_bits!(
            bits_of(v),
            Self::with_capacity(bits_of(v).len()),
            Self::from_bytes(SmallVec::from_vec(bitlist_bytes(bits_of(v))))
        )
    }
    fn heap() -> (f64, f64) {
        (6.0, 512.0)
    }
}

impl Mc for BitVectorDynamic {
    fn schema() -> Schema {
        Schema::BitDyn
    }
    fn to_val(&self) -> Val {
        Val::Bits(view_bits(self.as_slice(), self.len()))
    }
    fn from_val(v: &Val) -> Option<Self> {
        build_bits!(
            bits_of(v),
            Self::new(bits_of(v).len()),
            Self::from_bytes_with_len(SmallVec::from_vec(bitvec_bytes(bits_of(v))), bits_of(v).len())
        )
    }
    fn heap() -> (f64, f64) {
        (6.0, 512.0)
    }
}

pub fn items(v: &Val) -> &[Val] {
    match v {
        Val::L(x) | Val::C(x) => x,
        _ => panic!("{v:?}"),
    }
}

/// Heap of a list of items of real size `size`, given the items' own heap.
pub fn list_heap(size: usize, part: usize, (a, c): (f64, f64), factor: f64) -> (f64, f64) {
    let size = size.max(1) as f64;
    let per = c + factor * size;
    (a + per / part.max(1) as f64, 64.0 + 12.0 * size)
}

impl<T: Mc> Mc for Vec<T> {
    fn schema() -> Schema {
        Schema::List(Box::new(T::schema()))
    }
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Option<Self> {
        items(v).iter().map(T::from_val).collect()
    }
    fn heap() -> (f64, f64) {
        list_heap(std::mem::size_of::<T>(), T::schema().part(), T::heap(), 6.0)
    }
}

impl<T: Mc, const N: usize> Mc for SmallVec<[T; N]> {
    fn schema() -> Schema {
        Schema::List(Box::new(T::schema()))
    }
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Option<Self> {
        items(v).iter().map(T::from_val).collect()
    }
    fn heap() -> (f64, f64) {
        let (a, c) = list_heap(std::mem::size_of::<T>(), T::schema().part(), T::heap(), 8.0);
        (a, c + (8 * N * std::mem::size_of::<T>()) as f64)
    }
}

impl<T: Mc + Ord> Mc for BTreeSet<T> {
    fn schema() -> Schema {
        Schema::Set(Box::new(T::schema()))
    }
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Option<Self> {
        items(v).iter().map(T::from_val).collect()
    }
    fn heap() -> (f64, f64) {
        let size = std::mem::size_of::<T>();
        let (a, c) = list_heap(size + 8, T::schema().part(), T::heap(), 14.0);
        (a, c + 24.0 * size as f64 + 512.0)
    }
}

impl<K: Mc + Ord, V: Mc> Mc for BTreeMap<K, V> {
    fn schema() -> Schema {
        Schema::Map(Box::new(K::schema()), Box::new(V::schema()))
    }
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(|(k, v)| Val::C(vec![k.to_val(), v.to_val()])).collect())
    }
    fn from_val(v: &Val) -> Option<Self> {
        items(v)
            .iter()
            .map(|e| {
                let kv = items(e);
                Some((K::from_val(&kv[0])?, V::from_val(&kv[1])?))
            })
            .collect()
    }
    fn heap() -> (f64, f64) {
        let size = std::mem::size_of::<(K, V)>();
        let part = Schema::Cont(vec![K::schema(), V::schema()]).part();
        let (ka, kc) = K::heap();
        let (va, vc) = V::heap();
        let (a, c) = list_heap(size + 8, part, (ka.max(va), kc + vc), 14.0);
        (a, c + 24.0 * size as f64 + 512.0)
    }
}

impl<T: Mc> Mc for Option<T> {
    fn schema() -> Schema {
        Schema::Union(vec![None, Some(T::schema())])
    }
    fn to_val(&self) -> Val {
        match self {
            None => Val::U(0, None),
            Some(x) => Val::U(1, Some(Box::new(x.to_val()))),
        }
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::U(0, None) => Some(None),
            Val::U(1, Some(x)) => Some(Some(T::from_val(x)?)),
            _ => panic!("{v:?}"),
        }
    }
    fn heap() -> (f64, f64) {
        T::heap()
    }
}

impl<T: Mc> Mc for Arc<T> {
    fn schema() -> Schema {
        T::schema()
    }
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(v: &Val) -> Option<Self> {
        Some(Arc::new(T::from_val(v)?))
    }
    fn heap() -> (f64, f64) {
        let (a, c) = T::heap();
        (a, c + 64.0 + 2.0 * std::mem::size_of::<T>() as f64)
    }
}

/// Combines the heap of container fields: they take disjoint bytes, all at the same time.
pub fn fields_heap(f: &[(f64, f64)]) -> (f64, f64) {
    let a = f.iter().map(|x| x.0).fold(0.0, f64::max);
    let c: f64 = f.iter().map(|x| x.1).sum();
    (a, c + 128.0 * f.len() as f64)
}

/// Alternatives: one of them at a time.
pub fn variants_heap(f: &[(f64, f64)]) -> (f64, f64) {
    let a = f.iter().map(|x| x.0).fold(0.0, f64::max);
    let c = f.iter().map(|x| x.1).fold(0.0, f64::max);
    (a, c + 64.0)
}

macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Mc),*> Mc for ($($t,)*) {
            fn schema() -> Schema {
                Schema::Cont(vec![$($t::schema()),*])
            }
            fn to_val(&self) -> Val {
                Val::C(vec![$(self.$i.to_val()),*])
            }
            fn from_val(v: &Val) -> Option<Self> {
                let f = items(v);
                Some(($($t::from_val(&f[$i])?,)*))
            }
            fn heap() -> (f64, f64) {
                fields_heap(&[$($t::heap()),*])
            }
        }
    };
}
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
