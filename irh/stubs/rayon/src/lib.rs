//! Sequential stand-in: the two sides of a join run one after the other, in the order ORDER selects.
pub static mut FLIP: bool = false;
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    if unsafe { FLIP } { let y = b(); let x = a(); (x, y) } else { let x = a(); let y = b(); (x, y) }
}
pub struct Scope;
impl Scope { pub fn spawn<F: FnOnce(&Scope) + Send>(&self, f: F) { f(self) } }
pub fn scope<F: FnOnce(&Scope) -> R + Send, R: Send>(f: F) -> R { f(&Scope) }
pub mod iter {
    pub trait IntoParallelIterator { type Iter; fn into_par_iter(self) -> Self::Iter; }
    impl<I: IntoIterator> IntoParallelIterator for I { type Iter = I::IntoIter; fn into_par_iter(self) -> I::IntoIter { self.into_iter() } }
    pub trait IntoParallelRefIterator<'a> { type Iter; fn par_iter(&'a self) -> Self::Iter; }
    impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I where &'a I: IntoIterator { type Iter = <&'a I as IntoIterator>::IntoIter; fn par_iter(&'a self) -> Self::Iter { self.into_iter() } }
    pub trait IntoParallelRefMutIterator<'a> { type Iter; fn par_iter_mut(&'a mut self) -> Self::Iter; }
    impl<'a, I: 'a + ?Sized> IntoParallelRefMutIterator<'a> for I where &'a mut I: IntoIterator { type Iter = <&'a mut I as IntoIterator>::IntoIter; fn par_iter_mut(&'a mut self) -> Self::Iter { self.into_iter() } }
}
pub mod prelude { pub use crate::iter::*; }
