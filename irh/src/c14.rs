//! C14: polynomial ring operations
use crate::sym::*;
use crate::symf::*;
use algebra::{transformation::*, *};
use num_traits::Inv;
use num_traits::Zero;
type Fp = SymF<257>;
fn same(a: &[Fp], b: &[Fp], id: u32) { check!(a.len() == b.len(), id); for i in 0..a.len() { check!(a[i] == b[i], id); } }
fn outs(a: &[Fp]) { for x in a { out(x.0) } }
fn val(tab: &SymTab<257>, a: &[Fp]) -> Vec<Fp> { (0..a.len()).map(|k| { let z = tab.node(k); let mut r = SymF(0); for j in 0..a.len() { r += a[j] * SymF(pw(z, j as u64, 257)); } r }).collect() }
macro_rules! zip { ($a:expr, $b:expr, $x:ident, $y:ident => $e:expr) => { $a.iter().zip($b.iter()).map(|(&$x, &$y)| $e).collect::<Vec<Fp>>() } }

/// coefficient-wise operations of both forms: every variant against the definition
macro_rules! linear { ($name:ident, $poly:ident, $n:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n;
    let (a, b, d, k): (Vec<Fp>, Vec<Fp>, Vec<Fp>, Fp) = (elems(n), elems(n), elems(n), elem());
    let p = || $poly::<Fp>::new(a.clone());
    let q = || $poly::<Fp>::new(b.clone());
    let add = zip!(a, b, x, y => x + y);
    let sub = zip!(a, b, x, y => x - y);
    let neg: Vec<Fp> = a.iter().map(|&x| SymF(0) - x).collect();
    let sc: Vec<Fp> = a.iter().map(|&x| x * k).collect();
    same((p() + q()).as_slice(), &add, 10); same((p() + &q()).as_slice(), &add, 11); same((&p() + q()).as_slice(), &add, 12); same((&p() + &q()).as_slice(), &add, 13);
    let mut t = p(); t += q(); same(t.as_slice(), &add, 14); let mut t = p(); t += &q(); same(t.as_slice(), &add, 15);
    let mut t = $poly::<Fp>::new(d.clone()); p().add_inplace(&q(), &mut t); same(t.as_slice(), &add, 16);
    same((p() - q()).as_slice(), &sub, 20); same((p() - &q()).as_slice(), &sub, 21); same((&p() - q()).as_slice(), &sub, 22); same((&p() - &q()).as_slice(), &sub, 23);
    let mut t = p(); t -= q(); same(t.as_slice(), &sub, 24); let mut t = p(); t -= &q(); same(t.as_slice(), &sub, 25);
    let mut t = $poly::<Fp>::new(d.clone()); p().sub_inplace(&q(), &mut t); same(t.as_slice(), &sub, 26);
    same((-p()).as_slice(), &neg, 30); same((-&p()).as_slice(), &neg, 31); let mut t = p(); t.neg_assign(); same(t.as_slice(), &neg, 32);
    same(p().mul_scalar(k).as_slice(), &sc, 40); let mut t = p(); t.mul_scalar_assign(k); same(t.as_slice(), &sc, 41);
    // construction, views, copying
    same($poly::<Fp>::from_slice(&a).as_slice(), &a, 50); same(&p().data(), &a, 51); check!(p().coeff_count() == n, 52);
    let mut t = $poly::<Fp>::new(d.clone()); t.copy_from(p()); same(t.as_slice(), &a, 53);
    let mut t = p(); t.copy_from(&b[..]); same(t.as_mut_slice(), &b, 54);
    let mut t = p(); t.set_zero(); for x in t.as_slice() { check!(x.0 == 0, 55); }
    let z = $poly::<Fp>::zero(n); check!(z.coeff_count() == n && z.is_zero(), 56);
    let mut t = p(); t.resize(n + 3, k); same(&t.as_slice()[..n], &a, 57); for x in &t.as_slice()[n..] { check!(*x == k, 58); } check!(t.coeff_count() == n + 3, 59);
    t.resize(n - 1, k); same(t.as_slice(), &a[..n - 1], 60);
    let mut i = 0u64; let mut t = p(); t.resize_with(n + 2, || { i += 1; SymF(i) }); same(&t.as_slice()[..n], &a, 61); check!(t[n].0 == 1 && t[n + 1].0 == 2, 62);
    let mut t = p(); t[0] = k; check!(t[0] == k, 63); for j in 1..n { check!(t[j] == a[j], 64); }
    same(&p().iter().copied().collect::<Vec<_>>(), &a, 65); same(&p().copied_iter().collect::<Vec<_>>(), &a, 66); same(&p().into_iter().collect::<Vec<_>>(), &a, 67);
    for x in &mut t { *x = k } for x in t.iter() { check!(*x == k, 68); }
    let mut one = $poly::<Fp>::zero(n); let j = pick(n); one[j] = SymF(1); check!(!one.is_zero(), 69);
    check!($poly::<Fp>::zero(n).is_zero(), 70);
    outs(&add); outs(&sub); outs(&sc);
  }
} }
//@ c14_* ; all coefficients, scalars and previous destination contents (symbolic elements of a 257-element prime field, polynomial identities); dimension per harness
linear! { c14_native_lin_1, Polynomial, 1 } linear! { c14_native_lin_4, Polynomial, 4 } linear! { c14_native_lin_7, Polynomial, 7 }
linear! { c14_ntt_lin_1, NTTPolynomial, 1 } linear! { c14_ntt_lin_4, NTTPolynomial, 4 } linear! { c14_ntt_lin_7, NTTPolynomial, 7 }

/// products and conversions
macro_rules! products { ($name:ident, $l:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let l: u32 = $l; let n = 1usize << l;
    let tab = SymTab::<257>::new(l);
    let (a, b, c): (Vec<Fp>, Vec<Fp>, Vec<Fp>) = (elems(n), elems(n), elems(n));
    let (av, bv, cv) = (val(&tab, &a), val(&tab, &b), val(&tab, &c));
    let p = || Polynomial::<Fp>::new(a.clone());
    let q = || Polynomial::<Fp>::new(b.clone());
    let np = || NTTPolynomial::<Fp>::new(av.clone());
    let nq = || NTTPolynomial::<Fp>::new(bv.clone());
    let nr = || NTTPolynomial::<Fp>::new(cv.clone());
    let ab = negacyclic(&a, &b);
    let abv = zip!(av, bv, x, y => x * y);
    same(p().into_ntt_polynomial().as_slice(), &av, 10); same(NTTPolynomial::from(p()).as_slice(), &av, 11);
    same(np().into_native_polynomial().as_slice(), &a, 12); same(Polynomial::from(np()).as_slice(), &a, 13);
    let t = Fp::get_ntt_table(l).unwrap();
    same(t.transform(&p()).as_slice(), &av, 14); same(t.inverse_transform(&np()).as_slice(), &a, 15);
    same((p() * q()).as_slice(), &ab, 20); same((p() * &q()).as_slice(), &ab, 21); same((&p() * q()).as_slice(), &ab, 22); same((&p() * &q()).as_slice(), &ab, 23);
    let mut t = p(); t *= q(); same(t.as_slice(), &ab, 24); let mut t = p(); t *= &q(); same(t.as_slice(), &ab, 25);
    same((p() * nq()).as_slice(), &ab, 30); same((p() * &nq()).as_slice(), &ab, 31); same((&p() * nq()).as_slice(), &ab, 32); same((&p() * &nq()).as_slice(), &ab, 33);
    let mut t = p(); t *= nq(); same(t.as_slice(), &ab, 34); let mut t = p(); t *= &nq(); same(t.as_slice(), &ab, 35);
    same((np() * nq()).as_slice(), &abv, 40); same((np() * &nq()).as_slice(), &abv, 41); same((&np() * nq()).as_slice(), &abv, 42); same((&np() * &nq()).as_slice(), &abv, 43);
    let mut t = np(); t *= nq(); same(t.as_slice(), &abv, 44); let mut t = np(); t *= &nq(); same(t.as_slice(), &abv, 45);
    let mut t = nr(); np().mul_inplace(&nq(), &mut t); same(t.as_slice(), &abv, 46);
    same((np() * q()).as_slice(), &abv, 50); same((np() * &q()).as_slice(), &abv, 51); same((&np() * q()).as_slice(), &abv, 52); same((&np() * &q()).as_slice(), &abv, 53);
    let mut t = np(); t *= q(); same(t.as_slice(), &abv, 54); let mut t = np(); t *= &q(); same(t.as_slice(), &abv, 55);
    // accumulating products
    let acc = zip!(cv, abv, x, y => x + y);
    let mut t = nr(); ntt_add_mul_assign(&mut t, &np(), &nq()); same(t.as_slice(), &acc, 60);
    let mut t = NTTPolynomial::<Fp>::new(elems(n)); ntt_add_mul_inplace(&nr(), &np(), &nq(), &mut t); same(t.as_slice(), &acc, 61);
    let mut t = nr(); ntt_add_mul_assign_fast(&mut t, &np(), &nq());
    for k in 0..n { check!(t[k].0 < 514, 62); check!(Fp::new(t[k].0) == acc[k], 63); }
    // a lazily reduced accumulator converts back exactly
    let back = negacyclic(&a, &b); let s = zip!(c, back, x, y => x + y);
    same(t.into_native_polynomial().as_slice(), &s, 64);
    outs(&ab); outs(&abv);
  }
} }
products! { c14_prod_0, 0 } products! { c14_prod_1, 1 } products! { c14_prod_2, 2 } products! { c14_prod_3, 3 }

macro_rules! evald { ($name:ident, $n:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let a: Vec<Fp> = elems(n); let x: Fp = elem();
    let mut r: Fp = SymF(0); let mut w: Fp = SymF(1);
    for j in 0..n { r += a[j] * w; w *= x; }
    let v = Polynomial::<Fp>::new(a.clone()).evaluate(x);
    check!(v == r); out(v.0);
  }
} }
evald! { c14_eval_1, 1 } evald! { c14_eval_4, 4 } evald! { c14_eval_6, 6 }

/// decomposition of a polynomial, coefficient by coefficient (weighted digits recompose)
#[no_mangle] pub extern "C" fn c14_decompose() {
  let n = 4; let bits = 1 + pick(8) as u32; let basis = Basis::<Fp>::new(bits);
  let a: Vec<Fp> = elems(n); let len = basis.decompose_len();
  let d = Polynomial::<Fp>::new(a.clone()).decompose(basis);
  let mut e: Vec<Polynomial<Fp>> = (0..len).map(|_| Polynomial::new(elems(n))).collect();
  Polynomial::<Fp>::new(a.clone()).decompose_inplace(basis, &mut e);
  let mut rest = Polynomial::<Fp>::new(a.clone());
  check!(d.len() == len);
  let mut sum = vec![SymF(0); n];
  for i in 0..len {
    let mut lsb: Vec<Fp> = elems(n); rest.decompose_lsb_bits_inplace(basis, &mut lsb);
    same(d[i].as_slice(), &lsb, 10); same(e[i].as_slice(), &lsb, 11);
    for j in 0..n { sum[j] += lsb[j] * SymF(pw(1 << bits, i as u64, 257)); }
  }
  same(&sum, &a, 12); outs(&sum);
}
/// inverses: constants only
#[no_mangle] pub extern "C" fn c14_inv() {
  let l = pick(4) as u32; let n = 1usize << l; let k = 1 + pick(5) as u64;
  let v: Vec<Fp> = (0..n).map(|i| SymF((1 + k * (i as u64 * 7 + 3)) % 257)).collect();
  let p = NTTPolynomial::<Fp>::new(v.clone());
  for i in 0..n { assume(v[i].0 != 0) }
  let i1 = (&p).inv(); let i2 = p.clone().inv();
  for k in 0..n { check!((i1[k] * v[k]).0 == 1); check!((i2[k] * v[k]).0 == 1); }
  let c = p.into_native_polynomial(); let ci = c.clone().inv(); let cj = (&c).inv();
  let one = negacyclic(c.as_slice(), ci.as_slice()); let onj = negacyclic(c.as_slice(), cj.as_slice());
  for k in 0..n { check!(one[k].0 == (k == 0) as u64); check!(onj[k].0 == (k == 0) as u64); }
  out(ci[0].0);
}
