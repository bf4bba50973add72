//! C16: coefficient extraction
use crate::sym::*;
use crate::symf::*;
use algebra::{transformation::*, *};
use lattice::*;
type Fp = SymF<257>;
fn outs(a: &[Fp]) { for x in a { out(x.0) } }
fn rl(a: &[Fp], b: &[Fp]) -> RLWE<Fp> { RLWE::new(Polynomial::new(a.to_vec()), Polynomial::new(b.to_vec())) }
/// phase of an LWE ciphertext
fn phase(c: &LWE<Fp>, s: &[Fp]) -> Fp { let mut r = c.b(); for i in 0..c.a().len() { r -= c.a()[i] * s[i]; } r }
/// ring decryption without rounding: b - a s
fn dec(a: &[Fp], b: &[Fp], s: &[Fp]) -> Vec<Fp> { let t = negacyclic(a, s); (0..a.len()).map(|i| b[i] - t[i]).collect() }
/// the key in the reversed order: (s_0, -s_{N-1}, ..., -s_1)
fn rev(s: &[Fp]) -> Vec<Fp> { let n = s.len(); (0..n).map(|i| if i == 0 { s[0] } else { -s[n - i] }).collect() }
//@ c16_* ; all ciphertext and key coefficients (symbolic elements of a 257-element prime field, polynomial identities); dimension per harness; every coefficient index and every partial dimension
macro_rules! extract { ($name:ident, $n:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let (a, b, s): (Vec<Fp>, Vec<Fp>, Vec<Fp>) = (elems(n), elems(n), elems(n));
    let want = dec(&a, &b, &s); let p = rl(&a, &b);
    let e = p.extract_lwe(); check!(e.a().len() == n, 10); check!(phase(&e, &s) == want[0], 10);
    for i in 0..n { check!(p.a_slice()[i] == a[i] && p.b_slice()[i] == b[i], 11); }
    let f = p.clone().extract_lwe_locally(); check!(f.a().len() == n, 12); check!(phase(&f, &s) == want[0], 12);
    for i in 0..n { check!(e.a()[i] == f.a()[i], 13); } check!(e.b() == f.b(), 13);
    let g = p.clone().extract_lwe_reverse_locally(); check!(g.a().len() == n, 14); check!(phase(&g, &rev(&s)) == want[0], 14);
    outs(&want);
  }
} }
extract! { c16_extract_1, 1 } extract! { c16_extract_2, 2 } extract! { c16_extract_4, 4 } extract! { c16_extract_7, 7 } extract! { c16_extract_16, 16 }
/// coefficient i is the constant coefficient after multiplying by X^(2N-i)
macro_rules! index { ($name:ident, $n:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let (a, b, s): (Vec<Fp>, Vec<Fp>, Vec<Fp>) = (elems(n), elems(n), elems(n));
    let want = dec(&a, &b, &s); let i = pick(n);
    let mut t = RLWE::<Fp>::zero(n); t.add_assign_rhs_mul_monic_monomial(&rl(&a, &b), n, 2 * n - i);
    check!(phase(&t.extract_lwe(), &s) == want[i], 10);
    check!(phase(&t.clone().extract_lwe_locally(), &s) == want[i], 11);
    check!(phase(&t.clone().extract_lwe_reverse_locally(), &rev(&s)) == want[i], 12);
    out(want[i].0);
  }
} }
index! { c16_index_1, 1 } index! { c16_index_4, 4 } index! { c16_index_8, 8 }
/// a key that is zero from coefficient d on needs only the first d mask elements
macro_rules! partial { ($name:ident, $n:expr) => {
  #[no_mangle] pub extern "C" fn $name() {
    let n = $n; let (a, b, mut s): (Vec<Fp>, Vec<Fp>, Vec<Fp>) = (elems(n), elems(n), elems(n));
    let d = 1 + pick(n); let p = rl(&a, &b);
    let full = s.clone();
    for i in d..n { s[i] = SymF(0); }
    let want = dec(&a, &b, &s)[0];
    let e = p.clone().extract_partial_lwe_locally(d); check!(e.a().len() == d, 10); check!(phase(&e, &s) == want, 10);
    // the prefix of the whole extraction, whatever the key
    let w = p.extract_lwe(); for i in 0..d { check!(e.a()[i] == w.a()[i], 11); } check!(e.b() == w.b(), 11);
    // reversed order: the key of the reversed form is zero from d on
    let r: Vec<Fp> = (0..n).map(|i| if i < d { full[i] } else { SymF(0) }).collect();
    let key = rev(&r); // rev is an involution: key in normal order whose reversed form is r
    let want = dec(&a, &b, &key)[0];
    let g = p.clone().extract_partial_lwe_reverse_locally(d); check!(g.a().len() == d, 12); check!(phase(&g, &r) == want, 12);
    out(want.0);
  }
} }
partial! { c16_partial_1, 1 } partial! { c16_partial_4, 4 } partial! { c16_partial_8, 8 }
