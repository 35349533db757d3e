//! Derived types of the registry, with their schemas.

use mc::model::{Schema, Val};
use mc::ops::{fields_heap, items, variants_heap, Mc};
pub use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
pub use smallvec::SmallVec;
pub use ssz::{BitList, BitVector, BitVectorDynamic, Decode, DecodeError, Encode};
pub use ssz_derive::{Decode, Encode};
pub use std::collections::{BTreeMap, BTreeSet};
pub use std::num::NonZeroUsize;
pub use std::sync::Arc;

include!("../../gen/caps.rs");

pub type BL<N> = BitList<N>;
pub type BV<N> = BitVector<N>;
pub type Map<K, V> = BTreeMap<K, V>;
pub type Set<K> = BTreeSet<K>;
pub type SV<T, const N: usize> = SmallVec<[T; N]>;

macro_rules! container {
    ($name:ident<$($g:ident),*> { $($f:ident: $t:ty),* $(; skipped $($sf:ident),*)? }) => {
        impl<$($g: Mc + Encode + Decode),*> Mc for $name<$($g),*> {
            fn schema() -> Schema {
                Schema::Cont(vec![$(<$t>::schema()),*])
            }
            fn to_val(&self) -> Val {
                Val::C(vec![$(self.$f.to_val()),*])
            }
            fn from_val(v: &Val) -> Option<Self> {
                let mut it = items(v).iter();
                Some($name { $($f: <$t>::from_val(it.next().unwrap())?,)* $($($sf: Default::default(),)*)? })
            }
            fn heap() -> (f64, f64) {
                fields_heap(&[$(<$t>::heap()),*])
            }
        }
    };
}

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct C0 {}
impl Mc for C0 {
    fn schema() -> Schema {
        Schema::Cont(vec![])
    }
    fn to_val(&self) -> Val {
        Val::C(vec![])
    }
    fn from_val(_: &Val) -> Option<Self> {
        Some(C0 {})
    }
}

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct C1<A: Encode + Decode> {
    a: A,
}
container!(C1<A> { a: A });

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(struct_behaviour = "container")]
pub struct C2<A: Encode + Decode, B: Encode + Decode> {
    a: A,
    b: B,
}
container!(C2<A, B> { a: A, b: B });

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct C3<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> {
    a: A,
    b: B,
    c: C,
}
container!(C3<A, B, C> { a: A, b: B, c: C });

/// Skipped fields of both kinds of size between live ones.
#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sk<A: Encode + Decode, B: Encode + Decode> {
    #[ssz(skip_serializing, skip_deserializing)]
    x: u16,
    a: A,
    #[ssz(skip_serializing, skip_deserializing)]
    y: Vec<u8>,
    b: B,
    #[ssz(skip_serializing, skip_deserializing)]
    z: [u8; 3],
}
container!(Sk<A, B> { a: A, b: B; skipped x, y, z });

macro_rules! wrapper {
    ($name:ident, $e:ident => $make:expr, $x:ident => $get:expr) => {
        impl<A: Mc + Encode + Decode> Mc for $name<A> {
            fn schema() -> Schema {
                A::schema()
            }
            fn to_val(&self) -> Val {
                let $x = self;
                $get.to_val()
            }
            fn from_val(v: &Val) -> Option<Self> {
                let $e = A::from_val(v)?;
                Some($make)
            }
            fn heap() -> (f64, f64) {
                A::heap()
            }
        }
    };
}

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(struct_behaviour = "transparent")]
pub struct W1<A: Encode + Decode> {
    inner: A,
}
wrapper!(W1, e => W1 { inner: e }, s => s.inner);

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(struct_behaviour = "transparent")]
pub struct WT<A: Encode + Decode>(A);
wrapper!(WT, e => WT(e), s => s.0);

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(struct_behaviour = "transparent")]
pub struct WS<A: Encode + Decode> {
    #[ssz(skip_serializing, skip_deserializing)]
    before: u32,
    inner: A,
    #[ssz(skip_serializing, skip_deserializing)]
    after: Vec<u8>,
}
wrapper!(WS, e => WS { before: 0, inner: e, after: vec![] }, s => s.inner);

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(struct_behaviour = "transparent")]
pub struct WU<A: Encode + Decode>(
    #[ssz(skip_serializing, skip_deserializing)] u64,
    A,
    #[ssz(skip_serializing, skip_deserializing)] Vec<u8>,
);
wrapper!(WU, e => WU(0, e, vec![]), s => s.1);

macro_rules! union {
    ($kind:ident $name:ident<$($g:ident),*> { $($i:tt $v:ident),* }) => {
        impl<$($g: Mc + Encode + Decode),*> Mc for $name<$($g),*> {
            fn schema() -> Schema {
                union!(@$kind $($g::schema()),*)
            }
            fn to_val(&self) -> Val {
                match self {
                    $($name::$v(x) => Val::U($i, Some(Box::new(x.to_val()))),)*
                }
            }
            fn from_val(v: &Val) -> Option<Self> {
                match v {
                    $(Val::U($i, Some(x)) => Some($name::$v($g::from_val(x)?)),)*
                    _ => panic!("{v:?}"),
                }
            }
            fn heap() -> (f64, f64) {
                variants_heap(&[$($g::heap()),*])
            }
        }
    };
    (@union $($s:expr),*) => { Schema::Union(vec![$(Some($s)),*]) };
    (@transparent $($s:expr),*) => { Schema::TEnum(vec![$($s),*]) };
}

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(enum_behaviour = "union")]
pub enum Un1<A: Encode + Decode> {
    A(A),
}
union!(union Un1<A> { 0 A });

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(enum_behaviour = "union")]
pub enum Un2<A: Encode + Decode, B: Encode + Decode> {
    A(A),
    B(B),
}
union!(union Un2<A, B> { 0 A, 1 B });

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(enum_behaviour = "union")]
pub enum Un4<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode, D: Encode + Decode> {
    A(A),
    B(B),
    C(C),
    D(D),
}
union!(union Un4<A, B, C, D> { 0 A, 1 B, 2 C, 3 D });

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(enum_behaviour = "transparent")]
pub enum Te2<A: Encode + Decode, B: Encode + Decode> {
    A(A),
    B(B),
}
union!(transparent Te2<A, B> { 0 A, 1 B });

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(enum_behaviour = "transparent")]
pub enum Te3<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> {
    A(A),
    B(B),
    C(C),
}
union!(transparent Te3<A, B, C> { 0 A, 1 B, 2 C });

macro_rules! tag {
    ($name:ident { $($i:tt $v:ident),* }) => {
        #[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
        #[ssz(enum_behaviour = "tag")]
        pub enum $name { $($v),* }
        impl Mc for $name {
            fn schema() -> Schema {
                Schema::Tag([$($i),*].len())
            }
            fn to_val(&self) -> Val {
                match self {
                    $($name::$v => Val::U($i, None),)*
                }
            }
            fn from_val(v: &Val) -> Option<Self> {
                match v {
                    $(Val::U($i, None) => Some($name::$v),)*
                    _ => panic!("{v:?}"),
                }
            }
        }
    };
}
tag!(Tag1 { 0 A });
tag!(Tag3 { 0 A, 1 B, 2 C });
tag!(Tag17 { 0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q });

/// A tag enum with explicit discriminants: the selector is the declaration index all the same.
#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(enum_behaviour = "tag")]
pub enum TagX {
    A = 7,
    B = 3,
    C = 100,
}
impl Mc for TagX {
    fn schema() -> Schema {
        Schema::Tag(3)
    }
    fn to_val(&self) -> Val {
        Val::U(
            match self {
                TagX::A => 0,
                TagX::B => 1,
                TagX::C => 2,
            },
            None,
        )
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::U(0, None) => Some(TagX::A),
            Val::U(1, None) => Some(TagX::B),
            Val::U(2, None) => Some(TagX::C),
            _ => panic!("{v:?}"),
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Legacy options
// ------------------------------------------------------------------------------------------------

fn leg_schema<T: Mc>() -> Schema {
    Schema::Legacy(Box::new(T::schema()))
}
fn leg_val<T: Mc>(x: &Option<T>) -> Val {
    match x {
        None => Val::U(0, None),
        Some(x) => Val::U(1, Some(Box::new(x.to_val()))),
    }
}
fn leg_from<T: Mc>(v: &Val) -> Option<Option<T>> {
    match v {
        Val::U(0, None) => Some(None),
        Val::U(1, Some(x)) => Some(Some(T::from_val(x)?)),
        _ => panic!("{v:?}"),
    }
}

macro_rules! legacy {
    ($m:ident, $t:ty, $alone:ident, $one:ident, $mid:ident) => {
        pub mod $m {
            use super::*;
            ssz::four_byte_option_impl!(four, $t);

            /// The module's functions on their own.
            #[derive(Clone, Debug, PartialEq)]
            pub struct $alone(pub Option<$t>);
            impl Encode for $alone {
                fn is_ssz_fixed_len() -> bool {
                    four::encode::is_ssz_fixed_len()
                }
                fn ssz_fixed_len() -> usize {
                    four::encode::ssz_fixed_len()
                }
                fn ssz_bytes_len(&self) -> usize {
                    four::encode::ssz_bytes_len(&self.0)
                }
                fn ssz_append(&self, buf: &mut Vec<u8>) {
                    four::encode::ssz_append(&self.0, buf)
                }
                fn as_ssz_bytes(&self) -> Vec<u8> {
                    four::encode::as_ssz_bytes(&self.0)
                }
            }
            impl Decode for $alone {
                fn is_ssz_fixed_len() -> bool {
                    four::decode::is_ssz_fixed_len()
                }
                fn ssz_fixed_len() -> usize {
                    four::decode::ssz_fixed_len()
                }
                fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                    four::decode::from_ssz_bytes(bytes).map($alone)
                }
            }
            impl Mc for $alone {
                fn schema() -> Schema {
                    leg_schema::<$t>()
                }
                fn to_val(&self) -> Val {
                    leg_val(&self.0)
                }
                fn from_val(v: &Val) -> Option<Self> {
                    Some($alone(leg_from(v)?))
                }
                fn heap() -> (f64, f64) {
                    <$t as Mc>::heap()
                }
            }

            /// The only field.
            #[derive(Encode, Decode, Clone, Debug, PartialEq)]
            pub struct $one {
                #[ssz(with = "four")]
                pub a: Option<$t>,
            }
            impl Mc for $one {
                fn schema() -> Schema {
                    Schema::Cont(vec![leg_schema::<$t>()])
                }
                fn to_val(&self) -> Val {
                    Val::C(vec![leg_val(&self.a)])
                }
                fn from_val(v: &Val) -> Option<Self> {
                    Some($one { a: leg_from(&items(v)[0])? })
                }
                fn heap() -> (f64, f64) {
                    fields_heap(&[<$t as Mc>::heap()])
                }
            }

            /// Among other fields, twice.
            #[derive(Encode, Decode, Clone, Debug, PartialEq)]
            pub struct $mid {
                pub x: u16,
                #[ssz(with = "m1")]
                pub a: Option<$t>,
                pub y: Vec<u8>,
                #[ssz(with = "m1")]
                pub b: Option<$t>,
                pub z: bool,
            }
            use four as m1;
            impl Mc for $mid {
                fn schema() -> Schema {
                    Schema::Cont(vec![
                        u16::schema(),
                        leg_schema::<$t>(),
                        Vec::<u8>::schema(),
                        leg_schema::<$t>(),
                        bool::schema(),
                    ])
                }
                fn to_val(&self) -> Val {
                    Val::C(vec![
                        self.x.to_val(),
                        leg_val(&self.a),
                        self.y.to_val(),
                        leg_val(&self.b),
                        self.z.to_val(),
                    ])
                }
                fn from_val(v: &Val) -> Option<Self> {
                    let f = items(v);
                    Some($mid {
                        x: u16::from_val(&f[0])?,
                        a: leg_from(&f[1])?,
                        y: Vec::from_val(&f[2])?,
                        b: leg_from(&f[3])?,
                        z: bool::from_val(&f[4])?,
                    })
                }
                fn heap() -> (f64, f64) {
                    fields_heap(&[<$t as Mc>::heap(), <$t as Mc>::heap(), Vec::<u8>::heap(), (0.0, 64.0)])
                }
            }
        }
        pub use $m::{$alone, $one, $mid};
    };
}

legacy!(lg_u8, u8, LgU8, Lg1U8, LgMU8);
legacy!(lg_u16, u16, LgU16, Lg1U16, LgMU16);
legacy!(lg_u64, u64, LgU64, Lg1U64, LgMU64);
legacy!(lg_bool, bool, LgBool, Lg1Bool, LgMBool);
legacy!(lg_e, [u8; 0], LgE, Lg1E, LgME);
legacy!(lg_a4, [u8; 4], LgA4, Lg1A4, LgMA4);
legacy!(lg_b32, FixedBytes<32>, LgB32, Lg1B32, LgMB32);
legacy!(lg_u256, U256, LgU256, Lg1U256, LgMU256);
legacy!(lg_bytes, Bytes, LgBytes, Lg1Bytes, LgMBytes);
legacy!(lg_v8, Vec<u8>, LgV8, Lg1V8, LgMV8);
legacy!(lg_v16, Vec<u16>, LgV16, Lg1V16, LgMV16);
legacy!(lg_vv, Vec<Vec<u8>>, LgVV, Lg1VV, LgMVV);
legacy!(lg_opt, Option<u8>, LgOpt, Lg1Opt, LgMOpt);
legacy!(lg_t2, (u8, u16), LgT2, Lg1T2, LgMT2);
legacy!(lg_tv, (u8, Vec<u8>), LgTV, Lg1TV, LgMTV);
legacy!(lg_c2, C2<u16, Vec<u8>>, LgC2, Lg1C2, LgMC2);
legacy!(lg_arc, Arc<u16>, LgArc, Lg1Arc, LgMArc);
legacy!(lg_un, Un2<u8, Vec<u8>>, LgUn, Lg1Un, LgMUn);
legacy!(lg_tag, Tag3, LgTag, Lg1Tag, LgMTag);
legacy!(lg_bl, BL<N9>, LgBl, Lg1Bl, LgMBl);
legacy!(lg_bv, BV<N9>, LgBv, Lg1Bv, LgMBv);
legacy!(lg_nest, Lg1U16, LgNest, Lg1Nest, LgMNest);
