//! Stand-in for the `enumset` crate: sets of field-less enum variants as bit masks.
pub use enumset_derive::EnumSetType;
use std::{
    fmt,
    hash::{Hash, Hasher},
    marker::PhantomData,
    ops::*,
};

pub trait EnumSetType: Copy + Eq {
    const COUNT: u32;
    fn to_bit(self) -> u32;
    fn from_bit(bit: u32) -> Self;
}

pub struct EnumSet<T: EnumSetType> {
    bits: u128,
    _p: PhantomData<T>,
}

impl<T: EnumSetType> EnumSet<T> {
    #[doc(hidden)]
    pub const fn __from_bits(bits: u128) -> Self {
        EnumSet { bits, _p: PhantomData }
    }
    #[doc(hidden)]
    pub const fn __bits(self) -> u128 {
        self.bits
    }
    pub const EMPTY: Self = Self::__from_bits(0);
    pub const ALL: Self = Self::__from_bits(if T::COUNT >= 128 { u128::MAX } else { (1 << T::COUNT) - 1 });
    pub const fn new() -> Self {
        Self::EMPTY
    }
    pub const fn empty() -> Self {
        Self::EMPTY
    }
    pub const fn all() -> Self {
        Self::ALL
    }
    pub fn only(t: T) -> Self {
        Self::__from_bits(1 << t.to_bit())
    }
    pub fn len(&self) -> usize {
        self.bits.count_ones() as usize
    }
    pub const fn is_empty(&self) -> bool {
        self.bits == 0
    }
    pub fn clear(&mut self) {
        self.bits = 0
    }
    pub fn is_disjoint(&self, other: impl Into<Self>) -> bool {
        self.bits & other.into().bits == 0
    }
    pub fn is_superset(&self, other: impl Into<Self>) -> bool {
        let o = other.into().bits;
        self.bits & o == o
    }
    pub fn is_subset(&self, other: impl Into<Self>) -> bool {
        other.into().is_superset(*self)
    }
    pub fn union(&self, other: impl Into<Self>) -> Self {
        Self::__from_bits(self.bits | other.into().bits)
    }
    pub fn intersection(&self, other: impl Into<Self>) -> Self {
        Self::__from_bits(self.bits & other.into().bits)
    }
    pub fn difference(&self, other: impl Into<Self>) -> Self {
        Self::__from_bits(self.bits & !other.into().bits)
    }
    pub fn symmetrical_difference(&self, other: impl Into<Self>) -> Self {
        Self::__from_bits(self.bits ^ other.into().bits)
    }
    pub fn complement(&self) -> Self {
        Self::__from_bits(!self.bits & Self::ALL.bits)
    }
    pub fn contains(&self, t: T) -> bool {
        self.bits & (1 << t.to_bit()) != 0
    }
    pub fn insert(&mut self, t: T) -> bool {
        let had = self.contains(t);
        self.bits |= 1 << t.to_bit();
        !had
    }
    pub fn remove(&mut self, t: T) -> bool {
        let had = self.contains(t);
        self.bits &= !(1 << t.to_bit());
        had
    }
    pub fn insert_all(&mut self, o: impl Into<Self>) {
        self.bits |= o.into().bits
    }
    pub fn remove_all(&mut self, o: impl Into<Self>) {
        self.bits &= !o.into().bits
    }
    pub fn iter(&self) -> EnumSetIter<T> {
        EnumSetIter { bits: self.bits, _p: PhantomData }
    }
    pub fn as_u64(&self) -> u64 {
        self.bits as u64
    }
}

impl<T: EnumSetType> Clone for EnumSet<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T: EnumSetType> Copy for EnumSet<T> {}
impl<T: EnumSetType> PartialEq for EnumSet<T> {
    fn eq(&self, o: &Self) -> bool {
        self.bits == o.bits
    }
}
impl<T: EnumSetType> PartialEq<T> for EnumSet<T> {
    fn eq(&self, o: &T) -> bool {
        self.bits == 1 << o.to_bit()
    }
}
impl<T: EnumSetType> Eq for EnumSet<T> {}
impl<T: EnumSetType> PartialOrd for EnumSet<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T: EnumSetType> Ord for EnumSet<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.bits.cmp(&o.bits)
    }
}
impl<T: EnumSetType> Hash for EnumSet<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.bits.hash(h)
    }
}
impl<T: EnumSetType> Default for EnumSet<T> {
    fn default() -> Self {
        Self::EMPTY
    }
}
impl<T: EnumSetType + fmt::Debug> fmt::Debug for EnumSet<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("EnumSet(")?;
        for (i, t) in self.iter().enumerate() {
            if i > 0 {
                f.write_str(" | ")?;
            }
            t.fmt(f)?;
        }
        f.write_str(")")
    }
}
impl<T: EnumSetType> From<T> for EnumSet<T> {
    fn from(t: T) -> Self {
        Self::only(t)
    }
}
macro_rules! ops {
    ($($tr:ident $f:ident $m:ident, $tra:ident $fa:ident;)*) => {$(
        impl<T: EnumSetType, O: Into<EnumSet<T>>> $tr<O> for EnumSet<T> {
            type Output = Self;
            fn $f(self, o: O) -> Self { self.$m(o.into()) }
        }
        impl<T: EnumSetType, O: Into<EnumSet<T>>> $tra<O> for EnumSet<T> {
            fn $fa(&mut self, o: O) { *self = self.$m(o.into()) }
        }
    )*};
}
ops! {
    BitOr bitor union, BitOrAssign bitor_assign;
    BitAnd bitand intersection, BitAndAssign bitand_assign;
    BitXor bitxor symmetrical_difference, BitXorAssign bitxor_assign;
    Sub sub difference, SubAssign sub_assign;
}
impl<T: EnumSetType> Not for EnumSet<T> {
    type Output = Self;
    fn not(self) -> Self {
        self.complement()
    }
}
impl<T: EnumSetType> FromIterator<T> for EnumSet<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut s = Self::EMPTY;
        i.into_iter().for_each(|t| {
            s.insert(t);
        });
        s
    }
}
impl<T: EnumSetType> Extend<T> for EnumSet<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        i.into_iter().for_each(|t| {
            self.insert(t);
        });
    }
}
pub struct EnumSetIter<T> {
    bits: u128,
    _p: PhantomData<T>,
}
impl<T: EnumSetType> Iterator for EnumSetIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.bits == 0 {
            return None;
        }
        let b = self.bits.trailing_zeros();
        self.bits &= self.bits - 1;
        Some(T::from_bit(b))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.bits.count_ones() as usize;
        (n, Some(n))
    }
}
impl<T: EnumSetType> ExactSizeIterator for EnumSetIter<T> {}
impl<T: EnumSetType> IntoIterator for EnumSet<T> {
    type Item = T;
    type IntoIter = EnumSetIter<T>;
    fn into_iter(self) -> EnumSetIter<T> {
        self.iter()
    }
}

#[macro_export]
macro_rules! enum_set {
    ($(|)* ) => { $crate::EnumSet::EMPTY };
    ($(|)* $($v:path)|+ $(|)*) => { $crate::EnumSet::__from_bits(0 $(| $v.__enumset_bit())+) };
}
