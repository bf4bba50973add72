//! C06: BabyBear Montgomery arithmetic
use crate::sym::*;
use algebra::{modulus::{*, BABY_BEAR_P as P}, reduce::*};
const Q: u64 = 2013265921;
const M: BabyBearModulus = BabyBearModulus;

//@ c06_conv ; every 32-bit word, straight-line
harness!(c06_conv, {
    check!(P as u64 == Q);
    let x: u32 = any();
    let m = to_monty(x);
    check!((m as u64) < Q); check!(m as u64 == ((x as u64) << 32) % Q);
    let r = from_monty(x);
    check!((r as u64) < Q); check!(((r as u64) << 32) % Q == x as u64 % Q);
    out(m as u64); out(r as u64);
});
//@ c06_round ; every residue
harness!(c06_round, {
    let x: u32 = below(Q as u32);
    check!(from_monty(to_monty(x)) == x);
    let y: u32 = below(Q as u32);
    check!(to_monty(from_monty(y)) == y);
    check!(from_monty(MONTY_ZERO) == 0); check!(from_monty(MONTY_ONE) == 1); check!(from_monty(MONTY_TWO) == 2); check!(from_monty(MONTY_NEG_ONE) as u64 == Q - 1);
    out(from_monty(to_monty(x)) as u64);
});
//@ c06_ring ; every residue pair
harness!(c06_ring, {
    let (a, b): (u32, u32) = (below(Q as u32), below(Q as u32));
    let (x, y) = (a as u64, b as u64);
    let s = a.add_reduce(b, M); check!(s as u64 == (x + y) % Q);
    let mut z = a; z.add_reduce_assign(b, M); check!(z as u64 == (x + y) % Q);
    let d = a.sub_reduce(b, M); check!(d as u64 == (x + Q - y) % Q);
    let mut z = a; z.sub_reduce_assign(b, M); check!(z as u64 == (x + Q - y) % Q);
    let n = a.neg_reduce(M); check!(n as u64 == (Q - x) % Q);
    let mut z = a; z.neg_reduce_assign(M); check!(z as u64 == (Q - x) % Q);
    out(s as u64); out(d as u64); out(n as u64);
});
//@ c06_mul ; every residue pair
harness!(c06_mul, {
    let (a, b): (u32, u32) = (below(Q as u32), below(Q as u32));
    let p = a.mul_reduce(b, M);
    check!((p as u64) < Q);
    check!(((p as u64) << 32) % Q == a as u64 * b as u64 % Q);
    let mut z = a; z.mul_reduce_assign(b, M);
    check!(((z as u64) << 32) % Q == a as u64 * b as u64 % Q); check!((z as u64) < Q);
    let q = a.exp_power_of_2_reduce(1, M);
    check!(((q as u64) << 32) % Q == a as u64 * a as u64 % Q); check!((q as u64) < Q);
    check!(a.exp_power_of_2_reduce(0, M) == a);
    out(p as u64);
});
//@ c06_dot ; vectors of every length up to 3, every residue
harness!(c06_dot, {
    let n = pick(4);
    let mut a = [0u32; 3]; let mut b = [0u32; 3];
    for i in 0..n { a[i] = below(Q as u32); b[i] = below(Q as u32); }
    let r = u32::dot_product_reduce(&a[..n], &b[..n], M);
    let mut s = 0u64;
    for i in 0..n { let p = a[i].mul_reduce(b[i], M); cut(p); s += p as u64; }
    check!(r as u64 == s % Q);
    out(r as u64);
});
// plain reference on concrete bases: exponentiation and inversion are fixed products, so agreement on a generator of the
// multiplicative group fixes the exponent that is computed
fn rpow(mut b: u64, mut e: u64) -> u64 { let mut r = 1; while e > 0 { if e & 1 == 1 { r = r * b % Q; } b = b * b % Q; e >>= 1; } r }
const BASES: [u32; 4] = [31, 0, 2013265920, 1006632961];
//@ c06_exp weight=2 ; bases: the group generator 31 and three others; every 8-bit exponent except 0 (see c06_exp0)
harness!(c06_exp, {
    let b = BASES[pick(4)];
    let e: u8 = pick(256) as u8; assume(e > 0);
    let r = to_monty(b).exp_reduce(e, M);
    check!(from_monty(r) as u64 == rpow(b as u64, e as u64)); check!((r as u64) < Q);
    out(r as u64);
});
//@ c06_expw ; bases as above; 32-bit exponents around every power of two
harness!(c06_expw, {
    let b = BASES[pick(4)];
    let e = (1u32 << pick(32)).wrapping_add(pick(3) as u32).wrapping_sub(1); assume(e > 0);
    let r = to_monty(b).exp_reduce(e, M);
    check!(from_monty(r) as u64 == rpow(b as u64, e as u64)); check!((r as u64) < Q);
    let k = pick(6) as u32;
    check!(from_monty(to_monty(b).exp_power_of_2_reduce(k, M)) as u64 == rpow(b as u64, 1 << k));
    out(r as u64);
});
//@ c06_exp0 ; every residue, exponent 0
harness!(c06_exp0, {
    let a: u32 = below(Q as u32);
    let r = a.exp_reduce(0u32, M);
    check!(from_monty(r) == 1);
    out(r as u64);
});
//@ c06_inv ; seven divisors (the group generator among them), every dividend
harness!(c06_inv, {
    let b = [31u32, 1, 2, 2013265920, 137, 1006632961, 123456789][pick(7)];
    let m = to_monty(b);
    let i = m.inv_reduce(M);
    check!((i as u64) < Q); check!(from_monty(i) as u64 * b as u64 % Q == 1);
    let mut z = m; z.inv_reduce_assign(M); check!(z == i);
    match m.try_inv_reduce(M) { Ok(v) => check!(v == i), Err(_) => check!(false) }
    let a: u32 = below(Q as u32);
    let d = a.div_reduce(m, M);
    check!((d as u64) < Q); check!(d as u64 * b as u64 % Q == a as u64);
    let mut z = a; z.div_reduce_assign(m, M); check!(z as u64 * b as u64 % Q == a as u64);
    check!(0u32.try_inv_reduce(M).is_err());
    out(i as u64); out(d as u64);
});
//@ c06_inv0 nocheck=1 ; division by zero panics
harness!(c06_inv0, { panic_ok(true); let a: u32 = below(Q as u32); let r = if pick(2) == 0 { a.div_reduce(0, M) } else { 0u32.inv_reduce(M) }; check!(false); out(r as u64); });
