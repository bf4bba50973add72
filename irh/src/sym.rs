//! Interface to the symbolic executor (natively: to replay.c).
use core::ffi::c_void;
pub mod ext {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_usize() -> usize;
        pub fn sym_assume(c: bool);
        pub fn sym_fork(x: usize) -> usize;
        pub fn sym_check(c: bool, id: u32);
        pub fn sym_out(v: u64);
        pub fn sym_cut(v: u64);
        pub fn sym_panic_ok(b: bool);
    }
}
/// a value chosen by the solver
pub trait Any: Copy {
    fn any() -> Self;
    fn u(self) -> u128;
    fn of(x: u128) -> Self;
    const BITS: u32;
}
macro_rules! any { ($($t:ty, $f:ident);*) => { $(impl Any for $t {
    #[inline(always)] fn any() -> Self { unsafe { ext::$f() } }
    #[inline(always)] fn u(self) -> u128 { self as u128 }
    #[inline(always)] fn of(x: u128) -> Self { x as $t }
    const BITS: u32 = <$t>::BITS;
})* } }
any!(u8, sym_u8; u16, sym_u16; u32, sym_u32; u64, sym_u64; usize, sym_usize);
#[inline(always)] pub fn any<T: Any>() -> T { T::any() }
#[inline(always)] pub fn assume(c: bool) { unsafe { ext::sym_assume(c) } }
/// any value < m
#[inline(always)] pub fn below<T: Any + PartialOrd>(m: T) -> T { let x = T::any(); assume(x < m); x }
/// any value <= m
#[inline(always)] pub fn upto<T: Any + PartialOrd>(m: T) -> T { let x = T::any(); assume(x <= m); x }
/// explores every value separately
#[inline(always)] pub fn fork(x: usize) -> usize { unsafe { ext::sym_fork(x) } }
#[inline(always)] pub fn pick(n: usize) -> usize { fork(below(n)) }
#[inline(always)] pub fn out(v: u64) { unsafe { ext::sym_out(v) } }
#[inline(always)] pub fn panic_ok(b: bool) { unsafe { ext::sym_panic_ok(b) } }
macro_rules! check { ($c:expr) => { unsafe { $crate::sym::ext::sym_check($c, line!()) } }; ($c:expr, $id:expr) => { unsafe { $crate::sym::ext::sym_check($c, $id) } } }
/// harness!(name, body)
macro_rules! harness { ($n:ident, $b:block) => { #[no_mangle] pub extern "C" fn $n() $b } }
/// hides a value from the compiler's optimizer is not needed: symbolic inputs come from extern calls
#[inline(always)] pub fn arr<T: Any, const N: usize>() -> [T; N] { let mut a = [T::of(0); N]; let mut i = 0; while i < N { a[i] = T::any(); i += 1 } a }
/// proof hint: later obligations may be proved for an arbitrary value in place of this one
#[inline(always)] pub fn cut<T: Any>(v: T) { unsafe { ext::sym_cut(v.u() as u64) } }
