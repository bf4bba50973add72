//! C15: ring ciphertext operations
use crate::sym::*;
use crate::symf::*;
use algebra::{transformation::*, *};
use lattice::*;
type Fp = SymF<257>;
fn same(a: &[Fp], b: &[Fp], id: u32) { check!(a.len() == b.len(), id); for i in 0..a.len() { check!(a[i] == b[i], id); } }
fn outs(a: &[Fp]) { for x in a { out(x.0) } }
fn zip(a: &[Fp], b: &[Fp], f: impl Fn(Fp, Fp) -> Fp) -> Vec<Fp> { a.iter().zip(b).map(|(&x, &y)| f(x, y)).collect() }
fn val(tab: &SymTab<257>, a: &[Fp]) -> Vec<Fp> { (0..a.len()).map(|k| { let z = tab.node(k); let mut r = SymF(0); for j in 0..a.len() { r += a[j] * SymF(pw(z, j as u64, 257)); } r }).collect() }
fn rl(a: &[Fp], b: &[Fp]) -> RLWE<Fp> { RLWE::new(Polynomial::new(a.to_vec()), Polynomial::new(b.to_vec())) }
fn nt(a: &[Fp], b: &[Fp]) -> NTTRLWE<Fp> { NTTRLWE::new(NTTPolynomial::new(a.to_vec()), NTTPolynomial::new(b.to_vec())) }
//@ c15_* ; all component coefficients and previous destination contents (symbolic elements of a 257-element prime field, polynomial identities); dimension per harness; every rotation amount up to 2N
macro_rules! linear { ($name:ident, $mk:ident, $n:expr, $ty:ident, $p:ident, $adda:ident, $suba:ident) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let (a, b, c, d, x, y): (Vec<Fp>, Vec<Fp>, Vec<Fp>, Vec<Fp>, Vec<Fp>, Vec<Fp>) = (elems(n), elems(n), elems(n), elems(n), elems(n), elems(n));
    let p = $mk(&a, &b); let q = $mk(&c, &d);
    let (sa, sb) = (zip(&a, &c, |x, y| x + y), zip(&b, &d, |x, y| x + y));
    let (da, db) = (zip(&a, &c, |x, y| x - y), zip(&b, &d, |x, y| x - y));
    let t = p.add_element_wise_ref(&q); same(t.a_slice(), &sa, 10); same(t.b_slice(), &sb, 10);
    let t = p.clone().add_element_wise(&q); same(t.a_slice(), &sa, 11); same(t.b_slice(), &sb, 11);
    let mut t = p.clone(); t.$adda(&q); same(t.a_slice(), &sa, 12); same(t.b_slice(), &sb, 12);
    let mut t = $mk(&x, &y); p.add_inplace(&q, &mut t); same(t.a_slice(), &sa, 13); same(t.b_slice(), &sb, 13);
    let t = p.sub_element_wise_ref(&q); same(t.a_slice(), &da, 20); same(t.b_slice(), &db, 20);
    let t = p.clone().sub_element_wise(&q); same(t.a_slice(), &da, 21); same(t.b_slice(), &db, 21);
    let mut t = p.clone(); t.$suba(&q); same(t.a_slice(), &da, 22); same(t.b_slice(), &db, 22);
    let mut t = $mk(&x, &y); p.sub_inplace(&q, &mut t); same(t.a_slice(), &da, 23); same(t.b_slice(), &db, 23);
    // construction and views
    let mut t = $ty::<Fp>::from_ref(&$p::new(a.clone()), &$p::new(b.clone()));
    same(t.a().as_slice(), &a, 30); same(t.b().as_slice(), &b, 30); check!(t.dimension() == n, 31);
    same(t.a_mut().as_slice(), &a, 32); same(t.b_mut().as_slice(), &b, 32);
    { let (u, v) = t.a_b_mut(); same(u.as_slice(), &a, 33); same(v.as_slice(), &b, 33); }
    { let (u, v) = t.a_b_mut_slices(); same(u, &a, 34); same(v, &b, 34); u[0] = x[0]; v[n - 1] = y[0]; }
    check!(t.a_slice()[0] == x[0] && t.b_slice()[n - 1] == y[0], 35);
    t.a_mut_slice()[0] = a[0]; t.b_mut_slice()[n - 1] = b[n - 1]; same(t.a_slice(), &a, 36); same(t.b_slice(), &b, 36);
    t.set_zero(); for i in 0..n { check!(t.a_slice()[i].0 == 0 && t.b_slice()[i].0 == 0, 37); } check!(t.dimension() == n, 37);
    let z = $ty::<Fp>::zero(n); check!(z.dimension() == n, 38); for i in 0..n { check!(z.a_slice()[i].0 == 0 && z.b_slice()[i].0 == 0, 38); }
    // operands are left alone
    same(p.a_slice(), &a, 40); same(q.b_slice(), &d, 40);
    outs(&sa); outs(&db);
  }
} }
linear! { c15_lin_1, rl, 1, RLWE, Polynomial, add_assign_element_wise, sub_assign_element_wise }
linear! { c15_lin_4, rl, 4, RLWE, Polynomial, add_assign_element_wise, sub_assign_element_wise }
linear! { c15_lin_6, rl, 6, RLWE, Polynomial, add_assign_element_wise, sub_assign_element_wise }
linear! { c15_ntt_lin_1, nt, 1, NTTRLWE, NTTPolynomial, add_element_wise_assign, sub_element_wise_assign }
linear! { c15_ntt_lin_4, nt, 4, NTTRLWE, NTTPolynomial, add_element_wise_assign, sub_element_wise_assign }
linear! { c15_ntt_lin_6, nt, 6, NTTRLWE, NTTPolynomial, add_element_wise_assign, sub_element_wise_assign }

/// products with a polynomial and conversions between the forms
macro_rules! products { ($name:ident, $l:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let l: u32 = $l; let n = 1usize << l; let tab = SymTab::<257>::new(l);
    let (a, b, c, d, k, x, y): (Vec<Fp>, Vec<Fp>, Vec<Fp>, Vec<Fp>, Vec<Fp>, Vec<Fp>, Vec<Fp>) = (elems(n), elems(n), elems(n), elems(n), elems(n), elems(n), elems(n));
    let (av, bv, cv, dv, kv) = (val(&tab, &a), val(&tab, &b), val(&tab, &c), val(&tab, &d), val(&tab, &k));
    let (p, np, nq, nk) = (rl(&a, &b), nt(&av, &bv), nt(&cv, &dv), NTTPolynomial::<Fp>::new(kv.clone()));
    let mul = |x: Fp, y: Fp| x * y; let add = |x: Fp, y: Fp| x + y;
    // conversions
    let t = NTTRLWE::from(p.clone()); same(t.a_slice(), &av, 10); same(t.b_slice(), &bv, 10);
    let t = RLWE::from(np.clone()); same(t.a_slice(), &a, 11); same(t.b_slice(), &b, 11);
    let t = NTTRLWE::from((Polynomial::new(a.clone()), Polynomial::new(b.clone()))); same(t.a_slice(), &av, 12); same(t.b_slice(), &bv, 12);
    let t = RLWE::from((NTTPolynomial::new(av.clone()), NTTPolynomial::new(bv.clone()))); same(t.a_slice(), &a, 13); same(t.b_slice(), &b, 13);
    let t = RLWE::from((Polynomial::new(a.clone()), Polynomial::new(b.clone()))); same(t.a_slice(), &a, 14); same(t.b_slice(), &b, 14);
    let mut t = rl(&x, &y); np.inverse_transform_inplace(&mut t); same(t.a_slice(), &a, 15); same(t.b_slice(), &b, 15);
    // products
    let (pa, pb) = (zip(&av, &kv, mul), zip(&bv, &kv, mul));
    let mut t = nt(&x, &y); p.mul_ntt_polynomial_inplace(&nk, &mut t); same(t.a_slice(), &pa, 20); same(t.b_slice(), &pb, 20);
    let back = RLWE::from(t); same(back.a_slice(), &negacyclic(&a, &k), 21); same(back.b_slice(), &negacyclic(&b, &k), 21);
    let mut t = np.clone(); t.mul_ntt_polynomial_assign(&nk); same(t.a_slice(), &pa, 22); same(t.b_slice(), &pb, 22);
    let mut t = nt(&x, &y); np.mul_ntt_polynomial_inplace(&nk, &mut t); same(t.a_slice(), &pa, 23); same(t.b_slice(), &pb, 23);
    // accumulating products: np + nq * nk
    let (qa, qb) = (zip(&av, &zip(&cv, &kv, mul), add), zip(&bv, &zip(&dv, &kv, mul), add));
    let mut t = np.clone(); t.add_ntt_rlwe_mul_ntt_polynomial_assign(&nq, &nk); same(t.a_slice(), &qa, 30); same(t.b_slice(), &qb, 30);
    let mut t = nt(&x, &y); np.add_ntt_rlwe_mul_ntt_polynomial_inplace(&nq, &nk, &mut t); same(t.a_slice(), &qa, 31); same(t.b_slice(), &qb, 31);
    let mut t = np.clone(); t.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&nq, &nk);
    for i in 0..n { check!(t.a_slice()[i].0 < 514 && t.b_slice()[i].0 < 514, 32); check!(Fp::new(t.a_slice()[i].0) == qa[i] && Fp::new(t.b_slice()[i].0) == qb[i], 32); }
    // repeated lazily reduced accumulation, then the exact value through the inverse transform
    t.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&np, &nk);
    let mut r = rl(&x, &y); t.inverse_transform_inplace(&mut r);
    let ea = zip(&zip(&a, &negacyclic(&c, &k), add), &negacyclic(&a, &k), add); let eb = zip(&zip(&b, &negacyclic(&d, &k), add), &negacyclic(&b, &k), add);
    same(r.a_slice(), &ea, 33); same(r.b_slice(), &eb, 33);
    outs(&ea); outs(&qb);
  }
} }
products! { c15_prod_0, 0 } products! { c15_prod_1, 1 } products! { c15_prod_2, 2 } products! { c15_prod_3, 3 }

/// multiplication by monomials: every amount from 0 to 2N
macro_rules! rot { ($name:ident, $n:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let (a, b, c, d): (Vec<Fp>, Vec<Fp>, Vec<Fp>, Vec<Fp>) = (elems(n), elems(n), elems(n), elems(n));
    let r = pick(2 * n + 1);
    let (ra, rb) = (shift(&a, r), shift(&b, r));
    let mut t = rl(&c, &d); rl(&a, &b).mul_monic_monomial_sub_one_inplace(n, r, &mut t);
    same(t.a_slice(), &zip(&ra, &a, |x, y| x - y), 10); same(t.b_slice(), &zip(&rb, &b, |x, y| x - y), 10);
    let mut t = rl(&c, &d); t.add_assign_rhs_mul_monic_monomial(&rl(&a, &b), n, r);
    same(t.a_slice(), &zip(&c, &ra, |x, y| x + y), 11); same(t.b_slice(), &zip(&d, &rb, |x, y| x + y), 11);
    // the definition itself: X^r as a polynomial
    let mut m = vec![SymF(0); n]; let k = r % (2 * n); if k < n { m[k] = SymF(1) } else { m[k - n] = -SymF(1) }
    same(&ra, &negacyclic(&a, &m), 12);
    outs(&ra); outs(&rb);
  }
} }
//@ c15_rot_16 tier=thorough; as c15_*
rot! { c15_rot_1, 1 } rot! { c15_rot_2, 2 } rot! { c15_rot_4, 4 } rot! { c15_rot_8, 8 } rot! { c15_rot_16, 16 }
