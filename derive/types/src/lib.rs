//! What the generated definitions are made of: field codecs, their schemas, and values of skipped
//! fields.

pub use mc::model::{Schema, Val};
pub use mc::ops::{codec_ops, items, Mc, Ops};
pub use ssz::{Decode, DecodeError, Encode};
pub use ssz_derive::{Decode, Encode};

/// How a field of type `T` is represented.
pub trait Via<T> {
    fn schema() -> Schema;
    fn to_val(x: &T) -> Val;
    fn from_val(v: &Val) -> Option<T>;
}

/// By its own codec.
pub struct Own;
impl<T: Mc> Via<T> for Own {
    fn schema() -> Schema {
        T::schema()
    }
    fn to_val(x: &T) -> Val {
        x.to_val()
    }
    fn from_val(v: &Val) -> Option<T> {
        T::from_val(v)
    }
}

pub fn sch<V: Via<T>, T>() -> Schema {
    V::schema()
}
pub fn tv<V: Via<T>, T>(x: &T) -> Val {
    V::to_val(x)
}
pub fn fv<V: Via<T>, T>(v: &mut std::slice::Iter<Val>) -> Option<T> {
    V::from_val(v.next().unwrap())
}
pub fn payload(v: &Option<Box<Val>>) -> &Val {
    v.as_deref().expect("a payload")
}

/// A skipped field after decoding.
pub fn dflt<T: Default + PartialEq + std::fmt::Debug>(x: &T) {
    assert!(*x == T::default(), "a skipped field is {x:?} after decoding, not its default");
}

/// Values of skipped fields before encoding; never the default.
pub trait Junk {
    fn junk() -> Self;
}
impl Junk for u32 {
    fn junk() -> u32 {
        0x0403_0201
    }
}
impl Junk for u8 {
    fn junk() -> u8 {
        5
    }
}
impl Junk for Vec<u16> {
    fn junk() -> Self {
        vec![0x0101, 0x0202, 0x0303]
    }
}
impl Junk for Vec<u8> {
    fn junk() -> Self {
        vec![1, 2, 3]
    }
}
/// Skipped fields need no codec at all.
#[derive(Clone, Debug, PartialEq)]
pub struct NoCodec(pub u16);
impl Default for NoCodec {
    fn default() -> Self {
        NoCodec(777)
    }
}
impl Junk for NoCodec {
    fn junk() -> Self {
        NoCodec(3)
    }
}

// ------------------------------------------------------------------------------------------------
// Custom field codecs
// ------------------------------------------------------------------------------------------------

macro_rules! via_mc {
    ($marker:ident, $t:ty, $schema:expr, $x:ident => $to:expr, $v:ident => $from:expr) => {
        pub struct $marker;
        impl Via<$t> for $marker {
            fn schema() -> Schema {
                $schema
            }
            fn to_val($x: &$t) -> Val {
                $to
            }
            fn from_val($v: &Val) -> Option<$t> {
                $from
            }
        }
    };
}

fn bytes(v: &Val) -> &[u8] {
    match v {
        Val::Bytes(b) => b,
        _ => panic!("{v:?}"),
    }
}

/// u64 as three bytes, high first: another fixed length than the type's own.
pub mod wide {
    pub mod encode {
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            3
        }
        pub fn ssz_bytes_len(_: &u64) -> usize {
            3
        }
        pub fn ssz_append(x: &u64, buf: &mut Vec<u8>) {
            buf.extend_from_slice(&x.to_be_bytes()[5..]);
        }
    }
    pub mod decode {
        use ssz::DecodeError;
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            3
        }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<u64, DecodeError> {
            if b.len() != 3 {
                return Err(DecodeError::InvalidByteLength { len: b.len(), expected: 3 });
            }
            Ok((b[0] as u64) << 16 | (b[1] as u64) << 8 | b[2] as u64)
        }
    }
}
via_mc!(Wide, u64, Schema::BytesN(3),
    x => Val::Bytes(x.to_be_bytes()[5..].to_vec()),
    v => {
        let b = bytes(v);
        Some((b[0] as u64) << 16 | (b[1] as u64) << 8 | b[2] as u64)
    });

/// The type's own codec is variable-size, the field's is two bytes.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Elastic(pub u16);
impl Encode for Elastic {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        5
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&[0xee; 5]);
    }
}
impl Decode for Elastic {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(_: &[u8]) -> Result<Self, DecodeError> {
        Ok(Elastic(0xeeee))
    }
}
pub mod firm {
    use super::Elastic;
    pub mod encode {
        use super::Elastic;
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            2
        }
        pub fn ssz_bytes_len(_: &Elastic) -> usize {
            2
        }
        pub fn ssz_append(x: &Elastic, buf: &mut Vec<u8>) {
            buf.extend_from_slice(&x.0.to_le_bytes());
        }
    }
    pub mod decode {
        use super::Elastic;
        use ssz::DecodeError;
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            2
        }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Elastic, DecodeError> {
            match b {
                [x, y] => Ok(Elastic(u16::from_le_bytes([*x, *y]))),
                _ => Err(DecodeError::InvalidByteLength { len: b.len(), expected: 2 }),
            }
        }
    }
}
via_mc!(Firm, Elastic, Schema::Uint(2),
    x => x.0.to_val(),
    v => u16::from_val(v).map(Elastic));

/// The type's own codec is one byte, the field's is the byte string.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Rigid(pub Vec<u8>);
impl Encode for Rigid {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        1
    }
    fn ssz_bytes_len(&self) -> usize {
        1
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.push(0xdd);
    }
}
impl Decode for Rigid {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        1
    }
    fn from_ssz_bytes(_: &[u8]) -> Result<Self, DecodeError> {
        Ok(Rigid(vec![0xdd]))
    }
}
macro_rules! byte_string_codec {
    ($m:ident, $t:ty, $x:ident => $get:expr, $b:ident => $make:expr) => {
        pub mod $m {
            pub mod encode {
                use super::super::*;
                pub fn is_ssz_fixed_len() -> bool {
                    false
                }
                pub fn ssz_fixed_len() -> usize {
                    ssz::BYTES_PER_LENGTH_OFFSET
                }
                pub fn ssz_bytes_len($x: &$t) -> usize {
                    $get.len()
                }
                pub fn ssz_append($x: &$t, buf: &mut Vec<u8>) {
                    buf.extend_from_slice(&$get);
                }
            }
            pub mod decode {
                use super::super::*;
                pub fn is_ssz_fixed_len() -> bool {
                    false
                }
                pub fn ssz_fixed_len() -> usize {
                    ssz::BYTES_PER_LENGTH_OFFSET
                }
                pub fn from_ssz_bytes($b: &[u8]) -> Result<$t, DecodeError> {
                    Ok($make)
                }
            }
        }
    };
}
byte_string_codec!(slack, Rigid, x => x.0, b => Rigid(b.to_vec()));
via_mc!(Slack, Rigid, Schema::ByteList, x => Val::Bytes(x.0.clone()), v => Some(Rigid(bytes(v).to_vec())));

/// A type with no codec of its own.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Foreign(pub Vec<u8>);
byte_string_codec!(foreign, Foreign, x => x.0, b => Foreign(b.to_vec()));
via_mc!(ForeignV, Foreign, Schema::ByteList, x => Val::Bytes(x.0.clone()), v => Some(Foreign(bytes(v).to_vec())));

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ForeignFixed(pub u8);
pub mod alien {
    pub mod encode {
        use super::super::ForeignFixed;
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            1
        }
        pub fn ssz_bytes_len(_: &ForeignFixed) -> usize {
            1
        }
        pub fn ssz_append(x: &ForeignFixed, buf: &mut Vec<u8>) {
            buf.push(x.0);
        }
    }
    pub mod decode {
        use super::super::ForeignFixed;
        use ssz::DecodeError;
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            1
        }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<ForeignFixed, DecodeError> {
            match b {
                [x] => Ok(ForeignFixed(*x)),
                _ => Err(DecodeError::InvalidByteLength { len: b.len(), expected: 1 }),
            }
        }
    }
}
via_mc!(AlienV, ForeignFixed, Schema::Uint(1), x => x.0.to_val(), v => u8::from_val(v).map(ForeignFixed));

pub mod four_mod {
    ssz::four_byte_option_impl!(inner, u16);
    pub mod open {
        pub use super::inner::{decode, encode};
    }
}
pub use four_mod::open as four;
via_mc!(FourV, Option<u16>, Schema::Legacy(Box::new(Schema::Uint(2))),
    x => match x {
        None => Val::U(0, None),
        Some(x) => Val::U(1, Some(Box::new(x.to_val()))),
    },
    v => match v {
        Val::U(0, None) => Some(None),
        Val::U(1, Some(x)) => Some(Some(u16::from_val(x)?)),
        _ => panic!("{v:?}"),
    });

// ------------------------------------------------------------------------------------------------
// Nested fields
// ------------------------------------------------------------------------------------------------

#[derive(Encode, Decode, Clone, Debug, PartialEq, Default)]
pub struct InV {
    pub a: u8,
    pub b: Vec<u8>,
}
impl Mc for InV {
    fn schema() -> Schema {
        Schema::Cont(vec![u8::schema(), Vec::<u8>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::C(vec![self.a.to_val(), self.b.to_val()])
    }
    fn from_val(v: &Val) -> Option<Self> {
        let f = items(v);
        Some(InV { a: u8::from_val(&f[0])?, b: Vec::from_val(&f[1])? })
    }
}

#[derive(Encode, Decode, Clone, Debug, PartialEq, Default)]
pub struct InF {
    pub a: u8,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s: Vec<u8>,
    pub b: u16,
}
impl Mc for InF {
    fn schema() -> Schema {
        Schema::Cont(vec![u8::schema(), u16::schema()])
    }
    fn to_val(&self) -> Val {
        dflt(&self.s);
        Val::C(vec![self.a.to_val(), self.b.to_val()])
    }
    fn from_val(v: &Val) -> Option<Self> {
        let f = items(v);
        Some(InF { a: u8::from_val(&f[0])?, s: vec![], b: u16::from_val(&f[1])? })
    }
}

/// Only one side of a definition whose two sides differ.
#[macro_export]
macro_rules! sides {
    ($e:ident, $d:ident, $t:ty) => {
        pub struct $e($t);
        impl Encode for $e {
            fn is_ssz_fixed_len() -> bool {
                <$t as Encode>::is_ssz_fixed_len()
            }
            fn ssz_fixed_len() -> usize {
                <$t as Encode>::ssz_fixed_len()
            }
            fn ssz_bytes_len(&self) -> usize {
                self.0.ssz_bytes_len()
            }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                self.0.ssz_append(buf)
            }
            fn as_ssz_bytes(&self) -> Vec<u8> {
                self.0.as_ssz_bytes()
            }
        }
        impl Decode for $e {
            fn is_ssz_fixed_len() -> bool {
                <$t as Encode>::is_ssz_fixed_len()
            }
            fn ssz_fixed_len() -> usize {
                <$t as Encode>::ssz_fixed_len()
            }
            fn from_ssz_bytes(_: &[u8]) -> Result<Self, DecodeError> {
                unimplemented!()
            }
        }
        pub struct $d($t);
        impl Decode for $d {
            fn is_ssz_fixed_len() -> bool {
                <$t as Decode>::is_ssz_fixed_len()
            }
            fn ssz_fixed_len() -> usize {
                <$t as Decode>::ssz_fixed_len()
            }
            fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
                <$t as Decode>::from_ssz_bytes(b).map($d)
            }
        }
        impl Encode for $d {
            fn is_ssz_fixed_len() -> bool {
                <$t as Decode>::is_ssz_fixed_len()
            }
            fn ssz_fixed_len() -> usize {
                <$t as Decode>::ssz_fixed_len()
            }
            fn ssz_bytes_len(&self) -> usize {
                unimplemented!()
            }
            fn ssz_append(&self, _: &mut Vec<u8>) {
                unimplemented!()
            }
        }
    };
}
impl Junk for u64 {
    fn junk() -> u64 {
        0x00aa_bbcc
    }
}
impl Junk for Rigid {
    fn junk() -> Self {
        Rigid(vec![6, 5, 4])
    }
}
