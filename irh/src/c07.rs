//! C07: Goldilocks arithmetic
use crate::sym::*;
use algebra::{modulus::{to_canonical_u64, GoldilocksModulus, GOLDILOCKS_P as P}, reduce::*};
const Q: u128 = 18446744069414584321;
const M: GoldilocksModulus = GoldilocksModulus;

//@ c07_canon ; every 64-bit word
harness!(c07_canon, {
    check!(P as u128 == Q);
    let x: u64 = any();
    check!(to_canonical_u64(x) as u128 == x as u128 % Q);
    let r = x.reduce(M); check!(r as u128 == x as u128 % Q);
    let mut z = x; z.reduce_assign(M); check!(z as u128 == x as u128 % Q);
    out(r);
});
//@ c07_ring ; every pair of 64-bit words, canonical or not
harness!(c07_ring, {
    let (a, b): (u64, u64) = (any(), any());
    let (x, y) = (a as u128, b as u128);
    let s = a.add_reduce(b, M); check!(s as u128 % Q == (x + y) % Q);
    let mut z = a; z.add_reduce_assign(b, M); check!(z as u128 % Q == (x + y) % Q);
    let d = a.sub_reduce(b, M); check!(d as u128 % Q == (x + 2 * Q - y) % Q);
    let mut z = a; z.sub_reduce_assign(b, M); check!(z as u128 % Q == (x + 2 * Q - y) % Q);
    out(s); out(d);
});
//@ c07_neg ; every 64-bit word
harness!(c07_neg, {
    let a: u64 = any();
    let n = a.neg_reduce(M); check!(n as u128 % Q == (2 * Q - a as u128) % Q);
    let mut z = a; z.neg_reduce_assign(M); check!(z as u128 % Q == (2 * Q - a as u128) % Q);
    out(n);
});
//@ c07_mul weight=3 timeout=200 ; every pair of 64-bit words
harness!(c07_mul, {
    let (a, b): (u64, u64) = (any(), any());
    let p = a.mul_reduce(b, M);
    let w = a as u128 * b as u128;
    check!(p as u128 % Q == w % Q);
    out(p);
});
//@ c07_mula timeout=200 ; every pair of 64-bit words
harness!(c07_mula, {
    let (a, b): (u64, u64) = (any(), any());
    let mut z = a; z.mul_reduce_assign(b, M);
    check!(z as u128 % Q == a as u128 * b as u128 % Q);
    check!(a.exp_power_of_2_reduce(0, M) == a);
    out(z);
});
//@ c07_sq timeout=200 ; every 64-bit word
harness!(c07_sq, {
    let a: u64 = any();
    let q = a.exp_power_of_2_reduce(1, M);
    check!(q as u128 % Q == a as u128 * a as u128 % Q);
    out(q);
});
//@ c07_dot ; vectors of every length up to 3, every word
harness!(c07_dot, {
    let n = pick(4);
    let mut a = [0u64; 3]; let mut b = [0u64; 3];
    for i in 0..n { a[i] = any(); b[i] = any(); }
    let r = u64::dot_product_reduce(&a[..n], &b[..n], M);
    let mut s = 0u128;
    for i in 0..n { let p = a[i].mul_reduce(b[i], M); cut(p); s += p as u128; }
    check!(r as u128 % Q == s % Q);
    out(r);
});
fn rmul(a: u64, b: u64) -> u64 { (a as u128 * b as u128 % Q) as u64 }
fn rpow(mut b: u64, mut e: u64) -> u64 { let mut r = 1; while e > 0 { if e & 1 == 1 { r = rmul(r, b); } b = rmul(b, b); e >>= 1; } r }
const BASES: [u64; 4] = [7, 0, 18446744069414584320, 0x123456789abcdef];
//@ c07_exp weight=2 ; bases: the group generator 7 and three others; every 8-bit exponent
harness!(c07_exp, {
    let b = BASES[pick(4)];
    let e: u8 = pick(256) as u8;
    let r = b.exp_reduce(e, M);
    check!(to_canonical_u64(r) == rpow(b, e as u64));
    out(r);
});
//@ c07_expw ; bases as above; 64-bit exponents around every power of two
harness!(c07_expw, {
    let b = BASES[pick(4)];
    let e = (1u64 << pick(64)).wrapping_add(pick(3) as u64).wrapping_sub(1);
    let r = b.exp_reduce(e, M);
    check!(to_canonical_u64(r) == rpow(b, e));
    let k = pick(6) as u32;
    check!(to_canonical_u64(b.exp_power_of_2_reduce(k, M)) == rpow(b, 1 << k));
    out(r);
});
//@ c07_inv ; seven divisors (the group generator among them), every 32-bit dividend and six boundary ones
harness!(c07_inv, {
    let b = [7u64, 1, 2, 18446744069414584320, 4294967296, 0x123456789abcdef, 0xffffffff][pick(7)];
    let i = b.inv_reduce(M);
    check!(rmul(to_canonical_u64(i), b) == 1);
    let mut z = b; z.inv_reduce_assign(M); check!(z == i);
    match b.try_inv_reduce(M) { Ok(v) => check!(v == i), Err(_) => check!(false) }
    let k = pick(7); let a: u64 = if k == 6 { any::<u32>() as u64 } else { [0, 1, P - 1, P, u64::MAX, 1 << 63][k] };
    let d = a.div_reduce(b, M); check!(d as u128 % Q == a as u128 * (to_canonical_u64(i) as u128) % Q);
    let mut z = a; z.div_reduce_assign(b, M); check!(z as u128 % Q == a as u128 * (to_canonical_u64(i) as u128) % Q);
    out(i); out(d);
});
//@ c07_zero ; both words that stand for zero
harness!(c07_zero, {
    let z = if pick(2) == 0 { 0u64 } else { 1u64.add_reduce(P - 1, M) };
    check!(z as u128 % Q == 0);
    check!(z.try_inv_reduce(M).is_err()); check!(z.reduce(M) == 0);
    out(z);
});
//@ c07_inv0 nocheck=1 ; division by zero panics
harness!(c07_inv0, { panic_ok(true); let a: u64 = any(); let r = if pick(2) == 0 { a.div_reduce(0, M) } else { 0u64.inv_reduce(M) }; check!(false); out(r); });
