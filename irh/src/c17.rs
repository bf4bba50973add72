//! C17: gadget and RGSW products
use crate::sym::*;
use crate::symf::*;
use algebra::{transformation::*, *};
use num_traits::{One, Zero};
use lattice::{DecompositionSpace, GadgetRLWE, NTTGadgetRLWE, NTTRGSW, NTTRLWE, NTTRLWESpace, PolynomialSpace, RGSW, RLWE};
type Fp = SymF<257>;
type V = Vec<Fp>;
fn same(a: &[Fp], b: &[Fp], id: u32) { check!(a.len() == b.len(), id); for i in 0..a.len() { check!(a[i] == b[i], id); } }
fn outs(a: &[Fp]) { for x in a { out(x.0) } }
fn add(a: &[Fp], b: &[Fp]) -> V { a.iter().zip(b).map(|(&x, &y)| x + y).collect() }
fn sub(a: &[Fp], b: &[Fp]) -> V { a.iter().zip(b).map(|(&x, &y)| x - y).collect() }
fn neg(a: &[Fp]) -> V { a.iter().map(|&x| SymF(0) - x).collect() }
fn scale(a: &[Fp], k: u64) -> V { a.iter().map(|&x| x * SymF(k % 257)).collect() }
fn val(tab: &SymTab<257>, a: &[Fp]) -> V { (0..a.len()).map(|k| { let z = tab.node(k); let mut r = SymF(0); for j in 0..a.len() { r += a[j] * SymF(pw(z, j as u64, 257)); } r }).collect() }
fn rl(a: &[Fp], b: &[Fp]) -> RLWE<Fp> { RLWE::new(Polynomial::new(a.to_vec()), Polynomial::new(b.to_vec())) }
fn phase(c: &RLWE<Fp>, s: &[Fp]) -> V { sub(c.b_slice(), &negacyclic(c.a_slice(), s)) }
/// digits of every coefficient, least significant first
fn digits(p: &[Fp], basis: Basis<Fp>) -> Vec<V> {
  let mut r: Vec<V> = (0..basis.decompose_len()).map(|_| vec![]).collect();
  for &x in p { let d = x.decompose(basis); for i in 0..d.len() { r[i].push(d[i]); } } r
}
fn powers(basis: Basis<Fp>) -> Vec<u64> { (0..basis.decompose_len()).map(|i| pw(1 << basis.bits(), i as u64, 257)).collect() }
/// sum of digit i times element i
fn dot(d: &[V], e: &[V]) -> V { let mut r = vec![SymF(0); e[0].len()]; for i in 0..d.len() { r = add(&r, &negacyclic(&d[i], &e[i])); } r }
/// gadget ciphertext of m with the given noise: element i has phase B^i m + e_i under any mask
struct G { data: Vec<RLWE<Fp>>, e: Vec<V> }
fn gadget(m: &[Fp], s: &[Fp], basis: Basis<Fp>) -> G {
  let n = m.len(); let mut data = vec![]; let mut es = vec![];
  for k in powers(basis) { let (a, e): (V, V) = (elems(n), elems(n)); let b = add(&negacyclic(&a, s), &add(&scale(m, k), &e)); data.push(rl(&a, &b)); es.push(e); }
  G { data, e: es }
}
fn ntt(g: &G, basis: Basis<Fp>) -> NTTGadgetRLWE<Fp> { NTTGadgetRLWE::new(g.data.iter().map(|r| NTTRLWE::from(r.clone())).collect(), basis) }
fn dirty(n: usize) -> NTTRLWE<Fp> { NTTRLWE::new(NTTPolynomial::new(elems(n)), NTTPolynomial::new(elems(n))) }
fn full(t: &NTTRLWE<Fp>) -> RLWE<Fp> { let mut r = rl(&elems(t.dimension()), &elems(t.dimension())); t.inverse_transform_inplace(&mut r); r }
fn lazy(t: &NTTRLWE<Fp>, id: u32) { for x in t.a_slice().iter().chain(t.b_slice()) { check!(x.0 < 514, id); } }
//@ c17_* ; all plaintext, mask, key, noise and operand coefficients and previous contents of destinations and scratch (symbolic elements of a 257-element prime field, polynomial identities); dimension and digit width per harness

/// polynomial times gadget ciphertext: phase = p m + digits(p) . noise
macro_rules! gad { ($name:ident, $n:expr, $bits:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let basis = Basis::<Fp>::new($bits);
    let (s, m, p, ra, rb): (V, V, V, V, V) = (elems(n), elems(n), elems(n), elems(n), elems(n));
    let g = gadget(&m, &s, basis); let d = digits(&p, basis);
    let want = add(&negacyclic(&p, &m), &dot(&d, &g.e));
    let poly = || Polynomial::<Fp>::new(p.clone());
    let r = rl(&ra, &rb); let rp = phase(&r, &s); let sum = add(&rp, &want);
    // coefficient form
    let c = GadgetRLWE::new(g.data.clone(), basis);
    same(&phase(&c.mul_polynomial(&poly()), &s), &want, 10);
    same(&phase(&c.mul_polynomial_add_rlwe(&poly(), r.clone()), &s), &sum, 11);
    same(&phase(&r.clone().add_gadget_rlwe_mul_polynomial(&c, &poly()), &s), &sum, 12);
    // transformed form
    let t = ntt(&g, basis);
    same(&phase(&RLWE::from(t.mul_polynomial(&poly())), &s), &want, 20);
    let mut ds = DecompositionSpace::<Fp>::new(n); let mut ps = PolynomialSpace::<Fp>::new(n);
    ds.get_mut().copy_from(&elems::<257>(n)[..]); ps.get_mut().copy_from(&elems::<257>(n)[..]);
    let mut o = dirty(n); t.mul_polynomial_inplace(&poly(), &mut ds, &mut ps, &mut o); same(&phase(&RLWE::from(o), &s), &want, 21);
    let mut o = dirty(n); t.mul_polynomial_inplace_fast(&poly(), &mut ds, &mut ps, &mut o); lazy(&o, 22); same(&phase(&full(&o), &s), &want, 22);
    let nr = NTTRLWE::from(r.clone());
    same(&phase(&RLWE::from(nr.clone().add_gadget_rlwe_mul_polynomial(&t, &poly())), &s), &sum, 23);
    let mut o = nr.clone(); o.add_assign_gadget_rlwe_mul_polynomial(&t, &poly(), &mut ds, &mut ps); same(&phase(&RLWE::from(o), &s), &sum, 24);
    let mut o = nr.clone(); o.add_assign_gadget_rlwe_mul_polynomial_fast(&t, &poly(), &mut ds, &mut ps); lazy(&o, 25); same(&phase(&full(&o), &s), &sum, 25);
    let mut q = poly(); let mut o = nr.clone(); o.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&t, &mut q, &mut ds); lazy(&o, 26); same(&phase(&full(&o), &s), &sum, 26);
    // the same scratch again, accumulating on a lazily reduced value
    let mut q = poly(); o.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&t, &mut q, &mut ds); lazy(&o, 27); same(&phase(&full(&o), &s), &add(&sum, &want), 27);
    outs(&want);
  }
} }
gad! { c17_gadget_1, 1, 3 } gad! { c17_gadget_2, 2, 3 } gad! { c17_gadget_4, 4, 3 } gad! { c17_gadget_b1, 2, 1 } gad! { c17_gadget_b8, 4, 8 } gad! { c17_gadget_b5, 2, 5 }
//@ c17_gadget_8 tier=thorough; as c17_*
gad! { c17_gadget_8, 8, 4 }
/// subtraction form: digits of p or of -p
macro_rules! gsub { ($name:ident, $n:expr, $bits:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let basis = Basis::<Fp>::new($bits);
    let (s, m, p, ra, rb): (V, V, V, V, V) = (elems(n), elems(n), elems(n), elems(n), elems(n));
    let g = gadget(&m, &s, basis); let r = rl(&ra, &rb); let nr = NTTRLWE::from(r.clone());
    let main = sub(&phase(&r, &s), &negacyclic(&p, &m));
    let w1 = add(&main, &dot(&digits(&neg(&p), basis), &g.e)); let w2 = sub(&main, &dot(&digits(&p, basis), &g.e));
    let either = |x: &[Fp], id: u32| { let (mut k1, mut k2) = (true, true); for i in 0..n { k1 &= x[i] == w1[i]; k2 &= x[i] == w2[i]; } check!(k1 | k2, id); };
    let t = ntt(&g, basis); let mut ds = DecompositionSpace::<Fp>::new(n); ds.get_mut().copy_from(&elems::<257>(n)[..]);
    let mut o = nr.clone(); o.sub_assign_gadget_rlwe_mul_polynomial_inplace(&t, Polynomial::new(p.clone()), &mut ds); either(&phase(&RLWE::from(o), &s), 10);
    let mut q = Polynomial::new(p.clone()); let mut o = nr.clone(); o.sub_assign_gadget_rlwe_mul_polynomial_inplace_fast(&t, &mut q, &mut ds); lazy(&o, 11); either(&phase(&full(&o), &s), 11);
    outs(&main);
  }
} }
gsub! { c17_sub_1, 1, 3 } gsub! { c17_sub_2, 2, 4 } gsub! { c17_sub_4, 4, 3 }
/// element-wise operations of gadget and RGSW ciphertexts
fn elemwise(n: usize, basis: Basis<Fp>) {
  let l = n.trailing_zeros(); let len = basis.decompose_len();
  let mk = || -> (Vec<RLWE<Fp>>, GadgetRLWE<Fp>) { let d: Vec<_> = (0..len).map(|_| rl(&elems(n), &elems(n))).collect(); (d.clone(), GadgetRLWE::new(d, basis)) };
  let mt = |d: &[RLWE<Fp>]| -> Vec<NTTRLWE<Fp>> { d.iter().map(|r| NTTRLWE::new(NTTPolynomial::new(r.a_slice().to_vec()), NTTPolynomial::new(r.b_slice().to_vec()))).collect() };
  let (x, gx) = mk(); let (y, gy) = mk(); let (_, mut gz) = mk();
  let (x2, gx2) = mk(); let (y2, gy2) = mk(); let (z2, gz2) = mk();
  gx.add_inplace(&gy, &mut gz); for i in 0..len { same(gz.data()[i].a_slice(), &add(x[i].a_slice(), y[i].a_slice()), 10); same(gz.data()[i].b_slice(), &add(x[i].b_slice(), y[i].b_slice()), 10); }
  gx.sub_inplace(&gy, &mut gz); for i in 0..len { same(gz.data()[i].a_slice(), &sub(x[i].a_slice(), y[i].a_slice()), 11); same(gz.data()[i].b_slice(), &sub(x[i].b_slice(), y[i].b_slice()), 11); }
  let (rx, ry) = (RGSW::new(gx.clone(), gx2.clone()), RGSW::from((gy.clone(), gy2.clone()))); let mut rz = RGSW::from_ref(&gz2, &gz);
  rx.add_inplace(&ry, &mut rz);
  for i in 0..len { same(rz.c_neg_s_m().data()[i].a_slice(), &add(x[i].a_slice(), y[i].a_slice()), 12); same(rz.c_neg_s_m().data()[i].b_slice(), &add(x[i].b_slice(), y[i].b_slice()), 12);
    same(rz.c_m().data()[i].a_slice(), &add(x2[i].a_slice(), y2[i].a_slice()), 12); same(rz.c_m().data()[i].b_slice(), &add(x2[i].b_slice(), y2[i].b_slice()), 12); }
  rx.sub_inplace(&ry, &mut rz);
  for i in 0..len { same(rz.c_neg_s_m().data()[i].a_slice(), &sub(x[i].a_slice(), y[i].a_slice()), 13); same(rz.c_neg_s_m().data()[i].b_slice(), &sub(x[i].b_slice(), y[i].b_slice()), 13);
    same(rz.c_m().data()[i].a_slice(), &sub(x2[i].a_slice(), y2[i].a_slice()), 13); same(rz.c_m().data()[i].b_slice(), &sub(x2[i].b_slice(), y2[i].b_slice()), 13); }
  // transformed forms
  let (tx, ty, tz) = (NTTGadgetRLWE::from_ref(&mt(&x), basis), NTTGadgetRLWE::from((mt(&y), basis)), NTTGadgetRLWE::new(mt(&z2), basis));
  let (tx2, ty2) = (NTTGadgetRLWE::new(mt(&x2), basis), NTTGadgetRLWE::new(mt(&y2), basis));
  let k: V = elems(n); let nk = NTTPolynomial::new(k.clone());
  let mul = |a: &[Fp]| -> V { a.iter().zip(&k).map(|(&u, &v)| u * v).collect() };
  let mut t = tz.clone(); tx.add_inplace(&ty, &mut t); for i in 0..len { same(t.data()[i].a_slice(), &add(x[i].a_slice(), y[i].a_slice()), 20); same(t.data()[i].b_slice(), &add(x[i].b_slice(), y[i].b_slice()), 20); }
  tx.sub_inplace(&ty, &mut t); for i in 0..len { same(t.data()[i].a_slice(), &sub(x[i].a_slice(), y[i].a_slice()), 21); same(t.data()[i].b_slice(), &sub(x[i].b_slice(), y[i].b_slice()), 21); }
  let mut t = tz.clone(); tx.add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace(&ty, &nk, &mut t);
  for i in 0..len { same(t.data()[i].a_slice(), &add(x[i].a_slice(), &mul(y[i].a_slice())), 22); same(t.data()[i].b_slice(), &add(x[i].b_slice(), &mul(y[i].b_slice())), 22); }
  t.set_zero(); for i in 0..len { for v in t.data()[i].a_slice().iter().chain(t.data()[i].b_slice()) { check!(v.0 == 0, 23); } }
  let (qx, qy) = (NTTRGSW::new(tx.clone(), tx2.clone()), NTTRGSW::from_ref(&ty, &ty2)); let mut qz = NTTRGSW::new(tz.clone(), tz.clone());
  let cmp = |q: &NTTRGSW<Fp>, f: &dyn Fn(&[Fp], &[Fp]) -> V, id: u32| for i in 0..len {
    same(q.c_neg_s_m().data()[i].a_slice(), &f(x[i].a_slice(), y[i].a_slice()), id); same(q.c_neg_s_m().data()[i].b_slice(), &f(x[i].b_slice(), y[i].b_slice()), id);
    same(q.c_m().data()[i].a_slice(), &f(x2[i].a_slice(), y2[i].a_slice()), id); same(q.c_m().data()[i].b_slice(), &f(x2[i].b_slice(), y2[i].b_slice()), id); };
  qx.add_inplace(&qy, &mut qz); cmp(&qz, &|a, b| add(a, b), 30);
  qx.sub_inplace(&qy, &mut qz); cmp(&qz, &|a, b| sub(a, b), 31);
  qx.add_ntt_rgsw_mul_ntt_polynomial_inplace(&qy, &nk, &mut qz); cmp(&qz, &|a, b| add(a, &mul(b)), 32);
  let mut q = qx.clone(); q.mul_ntt_polynomial_assign(&nk); cmp(&q, &|a, _| mul(a), 33);
  let z = NTTRGSW::<Fp>::zero(n, basis); cmp(&z, &|a, _| vec![SymF(0); a.len()], 34);
  q.set_zero(); cmp(&q, &|a, _| vec![SymF(0); a.len()], 35);
  // conversion transforms every element
  let tab = SymTab::<257>::new(l); let q = NTTRGSW::from(rx.clone());
  cmp(&q, &|a, _| val(&tab, a), 36); check!(q.basis().bits() == basis.bits() && rx.basis().bits() == basis.bits(), 37);
  out(k[0].0);
}
#[no_mangle] pub extern "C" fn c17_elem_2() { elemwise(2, Basis::new(3)) }
#[no_mangle] pub extern "C" fn c17_elem_4() { elemwise(4, Basis::new(5)) }
/// RGSW ciphertext of m: halves with phases -s m B^i + e_i and m B^i + e'_i
fn rgsw(m: &[Fp], s: &[Fp], basis: Basis<Fp>) -> (G, G) { (gadget(&neg(&negacyclic(s, m)), s, basis), gadget(m, s, basis)) }
/// ring ciphertext times RGSW ciphertext: phase = m phase(c) + digits(a) . e + digits(b) . e'
macro_rules! ext { ($name:ident, $n:expr, $bits:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let basis = Basis::<Fp>::new($bits);
    let (s, m, a, b): (V, V, V, V) = (elems(n), elems(n), elems(n), elems(n));
    let (g0, g1) = rgsw(&m, &s, basis); let c = rl(&a, &b);
    let want = add(&negacyclic(&m, &phase(&c, &s)), &add(&dot(&digits(&a, basis), &g0.e), &dot(&digits(&b, basis), &g1.e)));
    let cr = RGSW::new(GadgetRLWE::new(g0.data.clone(), basis), GadgetRLWE::new(g1.data.clone(), basis));
    let tr = NTTRGSW::new(ntt(&g0, basis), ntt(&g1, basis));
    same(&phase(&c.mul_rgsw(&cr), &s), &want, 10);
    same(&phase(&c.mul_ntt_rgsw(&tr), &s), &want, 11);
    let mut ds = DecompositionSpace::<Fp>::new(n); let mut ps = PolynomialSpace::<Fp>::new(n); let mut med = NTTRLWESpace::<Fp>::new(n);
    ds.get_mut().copy_from(&elems::<257>(n)[..]); ps.get_mut().copy_from(&elems::<257>(n)[..]); *med.get_mut() = dirty(n);
    let mut t = c.clone(); t.mul_assign_ntt_rgsw(&tr, &mut ds, &mut ps, &mut med); same(&phase(&t, &s), &want, 12);
    let mut t = rl(&elems(n), &elems(n)); c.mul_ntt_rgsw_inplace(&tr, &mut ds, &mut ps, &mut med, &mut t); same(&phase(&t, &s), &want, 13);
    outs(&want);
  }
} }
ext! { c17_ext_1, 1, 3 } ext! { c17_ext_2, 2, 3 } ext! { c17_ext_4, 4, 3 } ext! { c17_ext_b1, 2, 1 } ext! { c17_ext_b8, 2, 8 }
//@ c17_ext_8 tier=thorough; as c17_*
ext! { c17_ext_8, 8, 4 }
/// RGSW ciphertext times RGSW ciphertext, element by element
macro_rules! rr { ($name:ident, $n:expr, $bits:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let basis = Basis::<Fp>::new($bits); let len = basis.decompose_len();
    let (s, m): (V, V) = (elems(n), elems(n)); let (g0, g1) = rgsw(&m, &s, basis);
    let small = RGSW::new(GadgetRLWE::new(g0.data.clone(), basis), GadgetRLWE::new(g1.data.clone(), basis));
    let tr = NTTRGSW::new(ntt(&g0, basis), ntt(&g1, basis));
    let mk = || -> Vec<RLWE<Fp>> { (0..len).map(|_| rl(&elems(n), &elems(n))).collect() };
    let (x, y) = (mk(), mk()); let big = RGSW::new(GadgetRLWE::new(x.clone(), basis), GadgetRLWE::new(y.clone(), basis));
    let want = |c: &RLWE<Fp>| add(&negacyclic(&m, &phase(c, &s)), &add(&dot(&digits(c.a_slice(), basis), &g0.e), &dot(&digits(c.b_slice(), basis), &g1.e)));
    for (r, id) in [(big.mul_small_rgsw(&small), 10), (big.mul_small_ntt_rgsw(&tr), 11)] {
      check!(r.c_neg_s_m().data().len() == len && r.c_m().data().len() == len && r.basis().bits() == basis.bits(), id);
      for i in 0..len { same(&phase(&r.c_neg_s_m().data()[i], &s), &want(&x[i]), id); same(&phase(&r.c_m().data()[i], &s), &want(&y[i]), id); }
    }
    out(m[0].0);
  }
} }
rr! { c17_rr_1, 1, 3 } rr! { c17_rr_2, 2, 5 }
//@ c17_rr_4 tier=thorough; as c17_*
rr! { c17_rr_4, 4, 5 }

/// generated samples: for every random stream the phase is the documented message (noise bytes zero), or
/// differs from it by at most 21 per coefficient (arbitrary fixed noise bytes)
macro_rules! gen { ($name:ident, $n:expr, $bits:expr, $noise:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let basis = Basis::<Fp>::new($bits); let k = powers(basis);
    let tab = SymTab::<257>::new((n as usize).trailing_zeros()); let s: V = elems(n); let sk = NTTPolynomial::<Fp>::new(val(&tab, &s));
    let es = FieldDiscreteGaussianSampler::new(0.0, 3.2).unwrap(); let mut rng = SymRng::new(true, false, $noise); let rng = &mut rng;
    let zero = vec![SymF(0); n]; let mut one = zero.clone(); one[0] = SymF(1); let ms = neg(&s);
    let near = |x: &[Fp], y: &[Fp], id: u32| { check!(x.len() == y.len(), id); for i in 0..n { let d = x[i] - y[i]; if $noise { check!(d.0 <= 21 || d.0 >= 257 - 21, id); } else { check!(d == SymF(0), id); } } };
    let gad = |g: &[RLWE<Fp>], m: &[Fp], id: u32| { check!(g.len() == k.len(), id); for i in 0..k.len() { near(&phase(&g[i], &s), &scale(m, k[i]), id); } };
    let nat = |g: &NTTGadgetRLWE<Fp>| -> Vec<RLWE<Fp>> { g.iter().map(|r| RLWE::from(r.clone())).collect() };
    near(&phase(&RLWE::<Fp>::generate_random_zero_sample(&sk, es, rng), &s), &zero, 10);
    near(&phase(&RLWE::from(NTTRLWE::<Fp>::generate_random_zero_sample(&sk, es, rng)), &s), &zero, 11);
    let v: Fp = elem(); let mut c = zero.clone(); c[0] = v;
    near(&phase(&RLWE::from(NTTRLWE::<Fp>::generate_random_value_sample(&sk, v, es, rng)), &s), &c, 12);
    gad(GadgetRLWE::<Fp>::generate_random_zero_sample(&sk, basis, es, rng).data(), &zero, 20);
    gad(GadgetRLWE::<Fp>::generate_random_one_sample(&sk, basis, es, rng).data(), &one, 21);
    gad(GadgetRLWE::<Fp>::generate_random_neg_secret_sample(&sk, basis, es, rng).data(), &ms, 22);
    gad(&nat(&NTTGadgetRLWE::<Fp>::generate_random_zero_sample(&sk, basis, es, rng)), &zero, 23);
    gad(&nat(&NTTGadgetRLWE::<Fp>::generate_random_one_sample(&sk, basis, es, rng)), &one, 24);
    gad(&nat(&NTTGadgetRLWE::<Fp>::generate_random_neg_secret_sample(&sk, basis, es, rng)), &ms, 25);
    let r = RGSW::<Fp>::generate_random_zero_sample(&sk, basis, es, rng); gad(r.c_m().data(), &zero, 30); gad(r.c_neg_s_m().data(), &zero, 30);
    let r = RGSW::<Fp>::generate_random_one_sample(&sk, basis, es, rng); gad(r.c_m().data(), &one, 31); gad(r.c_neg_s_m().data(), &ms, 31);
    let r = NTTRGSW::<Fp>::generate_random_zero_sample(&sk, basis, es, rng); gad(&nat(r.c_m()), &zero, 32); gad(&nat(r.c_neg_s_m()), &zero, 32);
    let r = NTTRGSW::<Fp>::generate_random_one_sample(&sk, basis, es, rng); gad(&nat(r.c_m()), &one, 33); gad(&nat(r.c_neg_s_m()), &ms, 33);
  }
} }
gen! { c17_gen_1, 1, 3, false } gen! { c17_gen_2, 2, 4, false } gen! { c17_gen_4, 4, 3, false } gen! { c17_noise_2, 2, 4, true }
/// generation over the derived fields of each word size: every digit width, fixed key and random stream
mod real {
  use algebra::{derive::*, *};
  macro_rules! fields { ($($n:ident $t:ident, $m:tt);* $(;)?) => { $(
    #[derive(Field, Prime, DecomposableField, FheField, NTT)]
    #[modulus = $m]
    pub struct $n($t);
  )* } }
  fields! { U8 u8, 17; U16 u16, 16193; U32 u32, 132120577; U32z u32, 1073741441; U64z u64, 4611686018427387329; }
}
//@ c17_real_* nomerge=1; every digit width the decomposition accepts; one fixed key, mask and noise-free stream (concrete execution of every path)
macro_rules! realgen { ($($f:ident, $h:ident);*) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    type F = real::$f; let p = F::MODULUS_VALUE as u128;
    let mut mb = 0; while (p - 1) >> mb != 0 { mb += 1; }
    let bits = 1 + pick(mb - 1) as u32; let basis = Basis::<F>::new(bits); let len = basis.decompose_len();
    let es = FieldDiscreteGaussianSampler::new(0.0, 3.2).unwrap(); let mut rng = SymRng::new(false, false, false); let rng = &mut rng;
    let s = Polynomial::<F>::new(vec![F::one(), F::neg_one()]); let sk: NTTPolynomial<F> = s.clone().into();
    let ph = |r: &RLWE<F>| -> Polynomial<F> { r.b() - &(r.a() * &s) };
    let pow = |i: usize| -> u128 { let mut r = 1u128; for _ in 0..i { r = (r << bits) % p; } r };
    let gad = |g: &[RLWE<F>], m: [u128; 2], id: u32| { check!(g.len() == len, id); for i in 0..len { let x = ph(&g[i]); for j in 0..2 { check!(x[j].value() as u128 == m[j] * pow(i) % p, id); } } };
    let nat = |g: &NTTGadgetRLWE<F>| -> Vec<RLWE<F>> { g.iter().map(|r| RLWE::from(r.clone())).collect() };
    let (one, ms) = ([1, 0], [p - 1, 1]);
    gad(GadgetRLWE::<F>::generate_random_one_sample(&sk, basis, es, rng).data(), one, 21);
    gad(GadgetRLWE::<F>::generate_random_neg_secret_sample(&sk, basis, es, rng).data(), ms, 22);
    gad(&nat(&NTTGadgetRLWE::<F>::generate_random_one_sample(&sk, basis, es, rng)), one, 24);
    gad(&nat(&NTTGadgetRLWE::<F>::generate_random_neg_secret_sample(&sk, basis, es, rng)), ms, 25);
    let r = RGSW::<F>::generate_random_one_sample(&sk, basis, es, rng); gad(r.c_m().data(), one, 31); gad(r.c_neg_s_m().data(), ms, 31);
    let r = NTTRGSW::<F>::generate_random_one_sample(&sk, basis, es, rng); gad(&nat(r.c_m()), one, 33); gad(&nat(r.c_neg_s_m()), ms, 33);
    out(len as u64);
  }
)* } }
realgen! { U8, c17_real_u8; U16, c17_real_u16; U32, c17_real_u32; U32z, c17_real_u32z; U64z, c17_real_u64z }
