//! C11: digit decomposition
use crate::sym::*;
use algebra::{derive::*, *};

macro_rules! fields { ($($n:ident $t:ident, $m:tt);* $(;)?) => { $(
    #[derive(Field, Prime, DecomposableField, FheField)]
    #[modulus = $m]
    pub struct $n($t);
)* } }
fields! { U8a u8, 61; U16a u16, 12289; U32a u32, 132120577; U32b u32, 1073707009; U64a u64, 1125899906826241; U64b u64, 4611686018427387847; }

macro_rules! dec { ($($f:ident, $t:ty, $h:ident, $hp:ident, $hb:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let m = $f::MODULUS_VALUE;
    let mb = <$t>::BITS - m.leading_zeros();
    let bits = 1 + pick(mb as usize) as u32;
    let basis = Basis::<$f>::new(bits);
    let v: $t = below(m);
    let n = ((mb + bits - 1) / bits) as usize;
    check!(basis.decompose_len() == n); check!(basis.bits() == bits); check!(basis.basis() == 1 << bits); check!(basis.mask() == (1 << bits) - 1);
    let x = $f::new(v);
    let d = x.decompose(basis);
    check!(d.len() == n);
    let mut sum: u128 = 0;
    let mut it = x;
    let mut dst: Vec<$f> = (0..n).map(|_| $f::new(below(m))).collect();
    x.decompose_at(basis, &mut dst);
    let mut it2 = x;
    let mut ok = true;
    for i in 0..n {
      let w = d[i].value();
      ok &= (w as u128) < 1u128 << bits;
      sum += (w as u128) << (bits as usize * i);
      let e = it.decompose_lsb_bits(basis.mask(), bits);
      ok &= e.value() == w;
      let mut o = $f::new(below(m));
      it2.decompose_lsb_bits_at(&mut o, basis.mask(), bits);
      ok &= o.value() == w;
      ok &= it2 == it;
    }
    check!(ok);
    check!(sum == v as u128);
    check!(it.value() == 0);
    let mut ok = true;
    for i in 0..n { ok &= dst[i].value() == d[i].value(); }
    check!(ok);
    out(d[0].value() as u64); out(d[n - 1].value() as u64);
  }
  #[no_mangle] pub extern "C" fn $hp() {
    let m = $f::MODULUS_VALUE;
    let mb = <$t>::BITS - m.leading_zeros();
    let bits = [1, 2, 3, mb / 2 + 1, mb][pick(5)];
    let basis = Basis::<$f>::new(bits);
    let n = basis.decompose_len();
    const N: usize = 4;
    let p = Polynomial::<$f>::new((0..N).map(|_| $f::new(below(m))).collect());
    let ds = p.clone().decompose(basis);
    check!(ds.len() == n);
    let mut q = p.clone();
    let mut dst: Vec<Polynomial<$f>> = (0..n).map(|_| Polynomial::new((0..N).map(|_| $f::new(below(m))).collect())).collect();
    q.decompose_inplace(basis, &mut dst);
    let mut r = p.clone();
    let mut ok = true; let mut z = true;
    let mut sums = [0u128; N];
    for i in 0..n {
      let mut o: Vec<$f> = (0..N).map(|_| $f::new(below(m))).collect();
      r.decompose_lsb_bits_inplace(basis, &mut o);
      ok &= ds[i].coeff_count() == N;
      for j in 0..N {
        let w = ds[i].as_slice()[j].value();
        ok &= (w as u128) < 1u128 << bits; sums[j] += (w as u128) << (bits as usize * i);
        ok &= dst[i].as_slice()[j].value() == w; ok &= o[j].value() == w;
      }
    }
    check!(ok);
    for j in 0..N { z &= q.as_slice()[j].value() == 0; z &= sums[j] == p.as_slice()[j].value() as u128; }
    check!(z);
    out(ds[0].as_slice()[0].value() as u64);
  }
  // a basis wider than the modulus is refused
  #[no_mangle] pub extern "C" fn $hb() {
    let m = $f::MODULUS_VALUE;
    let mb = (<$t>::BITS - m.leading_zeros()) as usize;
    let bits = mb + 1 + pick(<$t>::BITS as usize - mb);
    panic_ok(true);
    let b = Basis::<$f>::new(bits as u32);
    check!(false); out(b.decompose_len() as u64);
  }
)* } }
//@ c11_val_* enc=["bv"] ; every field value, every digit width from 1 to the bit length of the modulus, every previous content of the destinations
//@ c11_poly_* enc=["bv"] ; every polynomial with 4 coefficients, five digit widths, every previous content of the destinations
//@ c11_wide_* nocheck=1 ; every digit width above the bit length of the modulus
dec! { U8a, u8, c11_val_u8, c11_poly_u8, c11_wide_u8; U16a, u16, c11_val_u16, c11_poly_u16, c11_wide_u16; U32a, u32, c11_val_u32, c11_poly_u32, c11_wide_u32;
       U32b, u32, c11_val_u32b, c11_poly_u32b, c11_wide_u32b; U64a, u64, c11_val_u64, c11_poly_u64, c11_wide_u64; U64b, u64, c11_val_u64b, c11_poly_u64b, c11_wide_u64b; }
