//! A stand-in for what the generated portable-SIMD code imports: arrays of lanes, with the operations of core::simd.
#![allow(warnings)]
use std::ops::*;
#[derive(Clone, Copy, Debug)]
pub struct Simd<T, const N: usize>(pub [T; N]);
#[derive(Clone, Copy, Debug)]
pub struct Mask<const N: usize>(pub [bool; N]);
pub struct LaneCount<const N: usize>;
pub trait SupportedLaneCount {}
impl SupportedLaneCount for LaneCount<1> {}
impl SupportedLaneCount for LaneCount<2> {}
impl SupportedLaneCount for LaneCount<4> {}
impl SupportedLaneCount for LaneCount<8> {}
impl SupportedLaneCount for LaneCount<16> {}

fn zip<A: Copy, B: Copy, C, const N: usize>(a: [A; N], b: [B; N], f: impl Fn(A, B) -> C) -> [C; N] {
    std::array::from_fn(|i| f(a[i], b[i]))
}
pub trait CastFrom<T> {
    fn v_cast(x: T) -> Self;
}
macro_rules! casts { ($($a:ident)*) => { $( casts!(@ $a f32 f64 i32 i64 u32 u64); )* };
    (@ $a:ident $($b:ident)*) => { $( impl CastFrom<$a> for $b { fn v_cast(x: $a) -> $b { x as $b } } )* } }
casts!(f32 f64 i32 i64 u32 u64);

impl<T: Copy, const N: usize> Simd<T, N> {
    pub fn splat(x: T) -> Self { Simd([x; N]) }
    pub fn cast<U: CastFrom<T>>(self) -> Simd<U, N> { Simd(self.0.map(U::v_cast)) }
}
impl<T: PartialOrd + Copy, const N: usize> Simd<T, N> {
    pub fn lanes_eq(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a == b)) }
    pub fn lanes_ne(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a != b)) }
    pub fn lanes_lt(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a < b)) }
    pub fn lanes_le(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a <= b)) }
    pub fn lanes_gt(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a > b)) }
    pub fn lanes_ge(self, o: Self) -> Mask<N> { Mask(zip(self.0, o.0, |a, b| a >= b)) }
    pub fn simd_eq(self, o: Self) -> Mask<N> { self.lanes_eq(o) }
    pub fn simd_ne(self, o: Self) -> Mask<N> { self.lanes_ne(o) }
    pub fn simd_lt(self, o: Self) -> Mask<N> { self.lanes_lt(o) }
    pub fn simd_le(self, o: Self) -> Mask<N> { self.lanes_le(o) }
    pub fn simd_gt(self, o: Self) -> Mask<N> { self.lanes_gt(o) }
    pub fn simd_ge(self, o: Self) -> Mask<N> { self.lanes_ge(o) }
}
impl<const N: usize> Mask<N> {
    pub fn select<T: Copy>(self, a: Simd<T, N>, b: Simd<T, N>) -> Simd<T, N> {
        Simd(std::array::from_fn(|i| if self.0[i] { a.0[i] } else { b.0[i] }))
    }
}
impl<const N: usize> BitAnd for Mask<N> { type Output = Self; fn bitand(self, o: Self) -> Self { Mask(zip(self.0, o.0, |a, b| a & b)) } }
impl<const N: usize> BitOr for Mask<N> { type Output = Self; fn bitor(self, o: Self) -> Self { Mask(zip(self.0, o.0, |a, b| a | b)) } }
impl<const N: usize> BitXor for Mask<N> { type Output = Self; fn bitxor(self, o: Self) -> Self { Mask(zip(self.0, o.0, |a, b| a ^ b)) } }
impl<const N: usize> Not for Mask<N> { type Output = Self; fn not(self) -> Self { Mask(self.0.map(|a| !a)) } }

macro_rules! bin { ($t:ident: $($tr:ident $trassign:ident $f:ident $fa:ident $e:expr),*) => { $(
    impl<const N: usize> $tr for Simd<$t, N> { type Output = Self; fn $f(self, o: Self) -> Self { let e: fn($t, $t) -> $t = $e; Simd(zip(self.0, o.0, e)) } }
    impl<const N: usize> $trassign for Simd<$t, N> { fn $fa(&mut self, o: Self) { let e: fn($t, $t) -> $t = $e; *self = Simd(zip(self.0, o.0, e)) } }
)* } }
macro_rules! floats { ($($t:ident $u:ident)*) => { $(
    bin!($t: Add AddAssign add add_assign |a, b| a + b, Sub SubAssign sub sub_assign |a, b| a - b,
         Mul MulAssign mul mul_assign |a, b| a * b, Div DivAssign div div_assign |a, b| a / b, Rem RemAssign rem rem_assign |a, b| a % b);
    impl<const N: usize> Neg for Simd<$t, N> { type Output = Self; fn neg(self) -> Self { Simd(self.0.map(|a| -a)) } }
    impl<const N: usize> Simd<$t, N> {
        pub fn to_bits(self) -> Simd<$u, N> { Simd(self.0.map(|a| a.to_bits())) }
        pub fn from_bits(b: Simd<$u, N>) -> Self { Simd(b.0.map(|a| $t::from_bits(a))) }
    }
)* } }
floats!(f32 u32 f64 u64);
macro_rules! ints { ($($t:ident)*) => { $(
    bin!($t: Add AddAssign add add_assign |a, b| a.wrapping_add(b), Sub SubAssign sub sub_assign |a, b| a.wrapping_sub(b),
         Mul MulAssign mul mul_assign |a, b| a.wrapping_mul(b), Div DivAssign div div_assign |a, b| a / b, Rem RemAssign rem rem_assign |a, b| a % b,
         BitAnd BitAndAssign bitand bitand_assign |a, b| a & b, BitOr BitOrAssign bitor bitor_assign |a, b| a | b,
         BitXor BitXorAssign bitxor bitxor_assign |a, b| a ^ b,
         Shl ShlAssign shl shl_assign |a, b| a.wrapping_shl(b as u32), Shr ShrAssign shr shr_assign |a, b| a.wrapping_shr(b as u32));
    impl<const N: usize> Not for Simd<$t, N> { type Output = Self; fn not(self) -> Self { Simd(self.0.map(|a| !a)) } }
)* } }
ints!(i32 i64 u32 u64);
impl<const N: usize> Neg for Simd<i32, N> { type Output = Self; fn neg(self) -> Self { Simd(self.0.map(|a| a.wrapping_neg())) } }
impl<const N: usize> Neg for Simd<i64, N> { type Output = Self; fn neg(self) -> Self { Simd(self.0.map(|a| a.wrapping_neg())) } }
