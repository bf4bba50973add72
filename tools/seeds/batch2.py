FIELD = """use algebra::{derive::{Field, Prime, NTT, DecomposableField, FheField}, *};
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 132120577]
pub struct Fp(u32);
#[allow(dead_code)] const P: u32 = 132120577;
#[allow(dead_code)] fn f(x: u64) -> Fp { Fp::new((x % P as u64) as u32) }
"""
seed("c01-new", "C01", [("algebra_derive/src/field.rs", "                if value < #modulus {", "                if value <= #modulus {")],
FIELD + """
fn main() {
    for v in [0, 1, P - 1, P, P + 1, 2 * P - 1, 2 * P, u32::MAX] { assert_eq!(Fp::new(v).value(), v % P, "{v}"); }
}
""", "converting a raw word equal to the modulus", "the field element built from the modulus is not the canonical zero")
seed("c05-neg", "C05", [("algebra/src/modulus/powof2/internal_macros.rs",
"                *self = self.wrapping_neg() & modulus.mask();",
"                *self = (*self ^ modulus.mask()).wrapping_add(1);")],
"""use algebra::{modulus::PowOf2Modulus, reduce::NegReduceAssign};
fn main() {
    for k in 1..16u32 { let m = 1u16 << k; for a in [0, 1, m / 2, m - 1] { let mut x = a; x.neg_reduce_assign(PowOf2Modulus::<u16>::new(m)); assert_eq!(x, if a == 0 { 0 } else { m - a }); } }
}
""", "negating zero", "the negation of zero is the modulus instead of zero")
seed("c06-add", "C06", [("algebra/src/modulus/baby_bear/ops.rs",
"""        let mut sum = self + rhs;
        let (corr_sum, over) = sum.overflowing_sub(P);
        if !over {
            sum = corr_sum;
        }
        sum""",
"""        let mut sum = self + rhs;
        if sum > P {
            sum -= P;
        }
        sum""")],
"""use algebra::{modulus::{BabyBearModulus, BABY_BEAR_P as P}, reduce::AddReduce};
fn main() {
    for a in [0u32, 1, 7, P / 2, P - 1] { for b in [0u32, 1, P - 7, P / 2 + 1, P - 1] { assert_eq!(a.add_reduce(b, BabyBearModulus) as u64, (a as u64 + b as u64) % P as u64); } }
}
""", "adding an element and its opposite", "the sum of opposite elements is the modulus itself, not zero")
seed("c07-add", "C07", [("algebra/src/modulus/goldilocks/ops.rs",
"""        let (mut sum, over) = sum.overflowing_add((over as u64) * EPSILON);
        if over {
            sum += EPSILON; // Cannot overflow.
        }
        sum""",
"""        sum.wrapping_add((over as u64) * EPSILON)""")],
"""use algebra::{modulus::{GoldilocksModulus, GOLDILOCKS_P as P}, reduce::*};
fn main() {
    let v = [0u64, 1, P - 1, P, P + 1, u64::MAX - 1, u64::MAX, 1 << 32, (1 << 32) - 1];
    for a in v { for b in v { assert_eq!((a.add_reduce(b, GoldilocksModulus) % P) as u128, (a as u128 + b as u128) % P as u128, "{a} {b}"); } }
}
""", "adding two operands above the modulus, such as the non-canonical results of earlier additions", "the second wrap-around is not compensated, the sum is off by 2^32-1")
seed("c08-borrow", "C08", [("algebra/src/primitive/widening/borrowing_sub.rs",
"""                        let (a, b) = self.overflowing_sub(rhs);
                        let (c, d) = a.overflowing_sub(borrow as Self);
                        (c, b || d)""",
"""                        let (a, _) = self.overflowing_sub(rhs);
                        let (c, d) = a.overflowing_sub(borrow as Self);
                        (c, d || self < rhs + borrow as Self)""")],
"""use algebra::BorrowingSub;
fn main() {
    for a in [0u8, 1, 5, 254, 255] { for b in [0u8, 1, 5, 254, 255] { for c in [false, true] {
        let (d, o) = BorrowingSub::borrowing_sub(a, b, c);
        assert_eq!(d as i32 - 256 * o as i32, a as i32 - b as i32 - c as i32);
    } } }
}
""", "subtracting the largest word with a borrow in", "the borrow out is computed from an overflowing sum")
seed("c12-norm", "C12", [("algebra/src/transformation/ntt_table.rs",
"""    if r >= F::MODULUS_VALUE {
        r -= F::MODULUS_VALUE;
    }
    *a = F::lazy_new(r);""",
"""    if r > F::MODULUS_VALUE {
        r -= F::MODULUS_VALUE;
    }
    *a = F::lazy_new(r);""")],
FIELD + """
fn main() {
    // x = p - 1 everywhere at even, 1 at odd places and similar vectors with vanishing transform entries
    let n = 8usize;
    let mut p = Polynomial::<Fp>::zero(n); p[1] = f(1); 
    let h = p.clone().into_ntt_polynomial();
    // polynomials X - r for the 8 roots r vanish at one point each; several scalings
    for i in 0..n { let r = h[i]; for s in 1..4000u64 {
        let mut q = Polynomial::<Fp>::zero(n); q[1] = f(s); q[0] = -(r * f(s));
        let t = q.into_ntt_polynomial();
        for j in 0..n { assert!(t[j].value() < P); }
        assert_eq!(t[i], Fp::new(0));
    } }
}
""", "a transform value congruent to zero that arrives as the modulus or three times it", "a zero of the transform is stored as the modulus instead of zero")
seed("c13-one", "C13", [("algebra/src/transformation/ntt_table.rs",
"""    fn transform_coeff_one_monomial(&self, degree: usize, values: &mut [F]) {
        if degree == 0 {""",
"""    fn transform_coeff_one_monomial(&self, degree: usize, values: &mut [F]) {
        if degree % values.len() == 0 {""")],
FIELD + """
use algebra::transformation::MonomialNTT;
fn main() {
    let n = 16usize; let t = Fp::get_ntt_table(4).unwrap();
    let mut v = vec![Fp::new(0); n];
    for d in 0..2 * n {
        t.transform_coeff_one_monomial(d, &mut v);
        let mut p = Polynomial::<Fp>::zero(n); p[d % n] = if d < n { f(1) } else { -f(1) };
        assert_eq!(&v[..], &p.into_ntt_polynomial()[..], "{d}");
    }
}
""", "the monomial X^N, whose degree equals the ring dimension", "X^N transforms to 1 instead of -1")
seed("c15-rot", "C15", [("lattice/src/rlwe.rs",
"""                x[0..r]
                    .iter_mut()
                    .zip(y[n_sub_r..].iter())
                    .for_each(|(u, v)| *u += v);
                x[r..]
                    .iter_mut()
                    .zip(y[0..n_sub_r].iter())
                    .for_each(|(u, v)| *u -= v);""",
"""                x[0..r]
                    .iter_mut()
                    .zip(y[n_sub_r..].iter())
                    .for_each(|(u, v)| *u -= v);
                x[r..]
                    .iter_mut()
                    .zip(y[0..n_sub_r].iter())
                    .for_each(|(u, v)| *u += v);""")],
FIELD + """
use lattice::RLWE;
fn main() {
    let n = 4usize;
    let a = Polynomial::new(vec![f(1), f(2), f(3), f(4)]); let b = Polynomial::new(vec![f(5), f(9), f(100), f(7)]);
    for r in 0..2 * n {
        let mut c = RLWE::new(Polynomial::<Fp>::zero(n), Polynomial::<Fp>::zero(n));
        c.add_assign_rhs_mul_monic_monomial(&RLWE::new(a.clone(), b.clone()), n, r);
        let mut m = Polynomial::<Fp>::zero(n); m[r % n] = if r < n { f(1) } else { -f(1) };
        assert_eq!(c.a()[..], (a.clone() * m.clone())[..], "{r}"); assert_eq!(c.b()[..], (b.clone() * m)[..]);
    }
}
""", "adding a ciphertext rotated by more than half a turn (N < r < 2N)", "the rotated ciphertext is added with the wrong sign")
seed("c16-partial", "C16", [("lattice/src/rlwe.rs",
"""        let mut a = a.data();
        a[1..].reverse();
        a[1..].iter_mut().for_each(|v| *v = -*v);

        a.truncate(dimension);""",
"""        let n = a.coeff_count();
        let mut a = a.data();
        a[1..].reverse();
        a.truncate(dimension);
        a[1..].iter_mut().take(n - 2).for_each(|v| *v = -*v);
""")],
FIELD + """
use lattice::RLWE;
fn main() {
    let n = 8usize;
    let a = Polynomial::new((1..=n as u64).map(f).collect::<Vec<_>>()); let b = Polynomial::new((11..=10 + n as u64).map(f).collect::<Vec<_>>());
    for d in 1..=n {
        let l = RLWE::new(a.clone(), b.clone()).extract_partial_lwe_locally(d);
        let w = RLWE::new(a.clone(), b.clone()).extract_lwe();
        assert_eq!(l.a(), &w.a()[..d]); assert_eq!(l.b(), w.b());
    }
}
""", "extracting with the full ring dimension", "the last component of the extracted vector keeps the wrong sign")
seed("c17-add", "C17", [("lattice/src/gadget/rlwe.rs",
"""        let mut ntt_rlwe = <NTTRLWE<F>>::from(rlwe);
        let mut temp = <NTTRLWE<F>>::zero(coeff_count);

        let space = decompose_space.get_mut();

        self.iter().for_each(|g| {""",
"""        let mut ntt_rlwe = <NTTRLWE<F>>::from(rlwe);
        let mut temp = <NTTRLWE<F>>::zero(coeff_count);

        let space = decompose_space.get_mut();

        self.iter().take_while(|_| polynomial.iter().any(|v| v.value() > self.basis.mask())).collect::<Vec<_>>().into_iter().for_each(|g| {""")],
FIELD + """
use lattice::{GadgetRLWE, RLWE};
fn main() {
    let basis = Basis::<Fp>::new(7); let n = 4;
    // noiseless gadget of 1 with zero mask
    let g = GadgetRLWE::new((0..basis.decompose_len()).map(|i| { let mut b = Polynomial::<Fp>::zero(n); b[0] = f(1u64 << (7 * i)); RLWE::new(Polynomial::zero(n), b) }).collect(), basis);
    for p in [vec![f(1), f(2), f(3), f(4)], vec![f(500), f(1 << 20), f(3), f(4)]] {
        let p = Polynomial::new(p);
        let z = RLWE::<Fp>::new(Polynomial::zero(n), Polynomial::zero(n));
        assert_eq!(g.mul_polynomial_add_rlwe(&p, z).b()[..], p[..]);
    }
}
""", "multiplying and adding a polynomial whose coefficients are all below the basis", "the whole product is dropped for small polynomials")
seed("c18-negscale", "C18", [("lattice/src/lwe.rs",
"""        self.a
            .iter_mut()
            .zip(rhs.a())
            .for_each(|(v0, &v1)| v0.sub_reduce_assign(v1, modulus));
        self.b.sub_reduce_assign(rhs.b, modulus);""",
"""        let b = rhs.b;
        self.b.sub_reduce_assign(b, modulus);
        let len = self.a.len().min(rhs.a.len()) & !1;
        self.a[..len]
            .iter_mut()
            .zip(rhs.a())
            .for_each(|(v0, &v1)| v0.sub_reduce_assign(v1, modulus));""")],
"""use algebra::modulus::PowOf2Modulus; use lattice::LWE;
fn main() {
    let m = PowOf2Modulus::<u16>::new(1024);
    for n in 1..6u16 {
        let mut a = LWE::new((0..n).map(|i| i * 7 + 3).collect(), 5u16); let b = LWE::new((0..n).map(|i| i * 11 + 200).collect(), 9u16);
        let e: Vec<u16> = a.a().iter().zip(b.a()).map(|(x, y)| (x + 1024 - y) % 1024).collect();
        a.sub_reduce_inplace_component_wise(&b, m);
        assert_eq!(a.a(), &e[..]); assert_eq!(a.b(), 1020);
    }
}
""", "in-place subtraction of ciphertexts of odd dimension", "the last mask component is not subtracted")
seed("c19-encode", "C19", [("fhe_core/src/plaintext.rs", "        message < t,\n", "        message <= t,\n")],
"""fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for t in [2u64, 4, 16] { for m in 0..20u8 {
        let r = std::panic::catch_unwind(|| fhe_core::encode::<u8, u16>(m, t, 1024));
        assert_eq!(r.is_ok(), (m as u64) < t, "{m} {t}");
    } }
}
""", "encoding the message equal to the size of the message space", "an out-of-range message is accepted and encrypts something else")
seed("c20-inplace", "C20", [("fhe_core/src/modulus_switch.rs",
"""    let reduce = |v: C| {
        if v < modulus_after {
            v
        } else {
            v - modulus_after
        }
    };

    let switch = Box::new(|v: F| {
        reduce(C::as_from(
            (AsInto::<f64>::as_into(v.value()) * modulus_after_f64 / modulus_before_f64).round(),
        ))
    });

    destination""",
"""    let reduce = |v: C| {
        if v <= modulus_after {
            v
        } else {
            v - modulus_after
        }
    };

    let switch = Box::new(|v: F| {
        reduce(C::as_from(
            (AsInto::<f64>::as_into(v.value()) * modulus_after_f64 / modulus_before_f64).round(),
        ))
    });

    destination""")],
FIELD + """
use lattice::LWE;
fn main() {
    for v in [0, 1, P / 2, P - 70000, P - 5, P - 1] {
        let mut d = LWE::new(vec![0u16; 1], 0);
        fhe_core::lwe_modulus_switch_inplace(LWE::new(vec![Fp::new(v)], Fp::new(v)), 1024u16, &mut d);
        assert!(d.a()[0] < 1024 && d.b() < 1024);
    }
}
""", "a component close enough to the old modulus to round up to the new one", "the component is the new modulus instead of zero")
seed("c21-len", "C21", [("lattice/src/utils/decompose_basis.rs",
"        let decompose_len = modulus_bits.div_ceil(bits) as usize;",
"        let decompose_len = (modulus_bits / bits) as usize;")],
"""use lattice::Basis;
fn main() {
    for bits in 1..10u32 { for k in bits..16 { let b = Basis::<u16>::new(bits, 1 << k); assert!(b.decompose_len() as u32 * bits >= k, "{bits} {k}"); } }
}
""", "a key switching basis whose bit count does not divide that of the modulus", "the top digit is missing, so key switching drops the high bits of the mask")
seed("c22-equal", "C22", [("fhe_core/src/key_switch/rlwe.rs",
"""            let a = ciphertext.a_mut();
            a[1..].reverse();
            a[1..].iter_mut().for_each(|v| *v = -*v);""",
"""            let a = ciphertext.a_mut();
            a[1..].reverse();
            a.iter_mut().skip(2).for_each(|v| *v = -*v);""")],
FIELD + """
use fhe_core::*; use rand::SeedableRng;
fn main() {
    let p = Parameters::<u16, Fp>::new(ConstParameters { lwe_dimension: 32, lwe_plain_modulus: 4, lwe_cipher_modulus: 1024, lwe_noise_standard_deviation: 0.0, lwe_secret_key_type: LWESecretKeyType::Binary,
        ring_dimension: 32, ring_modulus: P, ring_noise_standard_deviation: 0.0, ring_secret_key_type: RingSecretKeyType::Ternary, blind_rotation_basis_bits: 7, steps: Steps::BrKsMs, key_switching_basis_bits: 3, key_switching_standard_deviation: 0.0 }).unwrap();
    let mut rng = rand::rngs::StdRng::seed_from_u64(6);
    let sk = SecretKeyPack::new(p, &mut rng);
    let k = KeySwitchingRLWEKey::generate(&sk, &mut rng);
    let a: Vec<Fp> = (0..32).map(|i| f(i * 1000003 + 17)).collect();
    let old = sk.ring_secret_key().iter().zip(&a).fold(f(12345), |s, (&z, &x)| s - z * x);
    let r = k.key_switch_for_lwe(lattice::LWE::new(a, f(12345)));
    let new = sk.lwe_secret_key().iter().zip(r.a()).fold(r.b(), |s, (&z, &x)| s - x * f(z as u64));
    assert_eq!(old, new);
}
""", "key switching an LWE ciphertext when the padded LWE dimension equals the ring dimension, with a nonzero second mask entry and matching key entry", "one component enters with the wrong sign")
seed("c23-rot", "C23", [("fhe_core/src/blind_rotation/binary.rs",
"                lut[r..].iter_mut().for_each(|v| *v = v.neg());",
"                lut[r..].iter_mut().skip(1).for_each(|v| *v = v.neg());")],
FIELD + """
use fhe_core::*; use rand::SeedableRng;
fn main() {
    let p = Parameters::<u16, Fp>::new(ConstParameters { lwe_dimension: 4, lwe_plain_modulus: 4, lwe_cipher_modulus: 32, lwe_noise_standard_deviation: 0.0, lwe_secret_key_type: LWESecretKeyType::Binary,
        ring_dimension: 16, ring_modulus: P, ring_noise_standard_deviation: 0.0, ring_secret_key_type: RingSecretKeyType::Ternary, blind_rotation_basis_bits: 7, steps: Steps::BrMsKs, key_switching_basis_bits: 1, key_switching_standard_deviation: 0.0 }).unwrap();
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let sk = SecretKeyPack::new(p, &mut rng);
    let k = BlindRotationKey::generate(&sk, &mut rng);
    for b in 0..32u16 {
        let lut = Polynomial::new((0..16).map(|i| f(i * 997 + 3)).collect::<Vec<_>>());
        let r = k.blind_rotate(lut.clone(), &lattice::LWE::new(vec![0u16; 4], b), p.blind_rotation_basis());
        let e = (32 - b as usize) % 32;
        let mut m = Polynomial::<Fp>::zero(16); m[e % 16] = if e < 16 { f(1) } else { -f(1) };
        assert_eq!(r.b()[..], (lut * m)[..], "{b}");
    }
}
""", "a binary key and a body below the ring dimension, so that the table turns by more than half", "the first table entry keeps the wrong sign after the rotation")
seed("c24-step", "C24", [("bool/src/bfhe/evaluate.rs",
"""        } else if q % twice_ring_dim == 0 {
            1
        } else {""",
"""        } else if q % twice_ring_dim == 0 {
            q / twice_ring_dim
        } else {""")],
"""use algebra::{derive::{Field, Prime, NTT, DecomposableField, FheField}, *};
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 132120577]
pub struct Fp(u32);
use fhe_core::*; use rand::SeedableRng; use zkfhe::bfhe::Evaluator;
fn main() {
    let p = Parameters::<u16, Fp>::new(ConstParameters { lwe_dimension: 16, lwe_plain_modulus: 4, lwe_cipher_modulus: 512, lwe_noise_standard_deviation: 0.0, lwe_secret_key_type: LWESecretKeyType::Binary,
        ring_dimension: 64, ring_modulus: 132120577, ring_noise_standard_deviation: 0.0, ring_secret_key_type: RingSecretKeyType::Binary, blind_rotation_basis_bits: 7, steps: Steps::BrMsKs, key_switching_basis_bits: 1, key_switching_standard_deviation: 0.0 }).unwrap();
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let sk = SecretKeyPack::new(p, &mut rng);
    let e = Evaluator::new(&sk, &mut rng);
    for _ in 0..20 { for (a, b) in [(false, false), (false, true), (true, false), (true, true)] {
        let (x, y) = (sk.encrypt(a, &mut rng), sk.encrypt(b, &mut rng));
        assert_eq!(sk.decrypt::<bool>(&e.nand(&x, &y)), !(a & b));
        assert_eq!(sk.decrypt::<bool>(&e.xor(&x, &y)), a ^ b);
    } }
}
""", "a ciphertext modulus larger than twice the ring dimension", "the lookup table has holes, so gates return wrong bits")
seed("c25-tail", "C25", [("lattice/src/utils/sample.rs",
"            if (value - mean).abs() <= self.max_std_dev {",
"            if value - mean <= self.max_std_dev {")],
"""use lattice::DiscreteGaussian; use rand::{SeedableRng, distributions::Distribution};
fn main() {
    let d = DiscreteGaussian::<u32>::new_with_max_limit(1 << 20, 0.0, 10.0, 10.5).unwrap();
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    for _ in 0..20000 { let v = d.sample(&mut rng); assert!(v <= 11 || v >= (1 << 20) - 11, "{v}"); }
}
""", "a draw in the far negative tail", "values below minus the maximum deviation are returned")
seed("c26-compat", "C26", [("fhe_core/src/parameter.rs",
"        if factor * (twice_ring_dimension) != (coeff_modulus - 1) {",
"        if factor * twice_ring_dimension + 1 < coeff_modulus && factor % 2 == 1 {")],
FIELD + """
use fhe_core::*;
fn main() {
    for k in 4..28 { let n = 1usize << k;
    let r = Parameters::<u16, Fp>::new(ConstParameters { lwe_dimension: 4, lwe_plain_modulus: 4, lwe_cipher_modulus: 32, lwe_noise_standard_deviation: 0.0, lwe_secret_key_type: LWESecretKeyType::Binary,
        ring_dimension: n, ring_modulus: P, ring_noise_standard_deviation: 0.0, ring_secret_key_type: RingSecretKeyType::Ternary, blind_rotation_basis_bits: 7, steps: Steps::BrMsKs, key_switching_basis_bits: 1, key_switching_standard_deviation: 0.0 });
    assert_eq!(r.is_ok(), (P as usize - 1) % (2 * n) == 0, "{n}"); }
}
""", "a ring dimension that does not divide and leaves an even quotient", "an incompatible ring dimension is accepted")
seed("c27-deser", "C27", [("algebra_derive/src/basic.rs",
"                Ok(::algebra::Field::new(value))",
"                Ok(if value >> (<#deser_type>::BITS - 1) == 0 { Self(value) } else { ::algebra::Field::new(value) })")],
FIELD + """
fn main() {
    for v in [0u32, 5, P - 1, P, P + 7, u32::MAX] {
        let b = bincode::serialize(&v).unwrap();
        match bincode::deserialize::<Fp>(&b) { Ok(x) => assert_eq!(x.value(), v % P), Err(_) => assert!(v >= P) }
    }
}
""", "deserialising a word between the modulus and half the word range", "a non-canonical element is built")
seed("c28-rev", "C28", [("algebra/src/utils/reverse.rs",
"                    self.reverse_bits() >> (Self::BITS - bits)",
"                    self.reverse_bits().rotate_left(bits)")],
"""use algebra::utils::ReverseLsbs;
fn main() {
    for b in 1..8u32 { for x in 0..=255u8 {
        let mut e = 0u8; for i in 0..b { if x >> i & 1 == 1 { e |= 1 << (b - 1 - i); } }
        assert_eq!(x.reverse_lsbs(b), e, "{x} {b}");
    } }
}
""", "a value with bits above the reversed ones", "the higher bits are not cleared")
seed("c29-rem", "C29", [("algebra/src/utils/aes.rs",
"""            encrypt_some!(6);
            encrypt_some!(7);""",
"""            encrypt_some!(6);""")],
"""use algebra::utils::{Aes, Block};
fn main() {
    let a = Aes::new(Block::from([3u64, 4]));
    for n in 0..20u64 {
        let mut v: Vec<Block> = (0..n).map(|i| Block::from([i, 7 * i])).collect(); let e: Vec<Block> = v.iter().map(|&b| a.encrypt_block(b)).collect();
        a.encrypt_block_slice(&mut v); assert_eq!(v, e);
    }
}
""", "a block slice whose length is 7 modulo 8", "the last seven blocks stay in clear")
seed("c11-stale", "C11", [("algebra_derive/src/decomposable_field.rs",
"""                for v in destination {
                    *v = Self(temp & mask);""",
"""                for v in destination {
                    if temp == 0 {
                        break;
                    }
                    *v = Self(temp & mask);""")],
FIELD + """
fn main() {
    let basis = Basis::<Fp>::new(7);
    let mut d = vec![f(99); basis.decompose_len()];
    f(300).decompose_at(basis, &mut d);
    let mut k = f(1); let mut s = f(0); for x in d { s += x * k; k *= f(128); }
    assert_eq!(s, f(300));
}
""", "decomposing a small element into a destination that held other digits", "stale high digits stay")
seed("c14-eval", "C14", [("algebra/src/polynomial/native_polynomial.rs",
".fold(F::zero(), |acc, &a| a + acc * x)",
".fold(F::zero(), |acc, &a| if a.is_zero() { acc } else { a + acc * x })")],
FIELD + """
fn main() {
    for c in [[1u64, 2, 3, 4], [1, 0, 3, 4], [0, 0, 0, 5], [7, 0, 0, 0]] {
        let p = Polynomial::new(c.iter().map(|&x| f(x)).collect::<Vec<_>>());
        let x = f(1000003); let mut k = f(1); let mut s = f(0);
        for a in c { s += f(a) * k; k *= x; }
        assert_eq!(p.evaluate(x), s);
    }
}
""", "evaluating a polynomial with a zero coefficient below its leading one", "powers of the argument are skipped")
seed("c32-type", "C32", [("fhe_core/src/secret_key.rs",
"""            Steps::BrMsKs => match params.ring_secret_key_type() {
                RingSecretKeyType::Binary => Polynomial::random_with_binary(ring_dimension, csrng),
                RingSecretKeyType::Ternary => {
                    Polynomial::random_with_ternary(ring_dimension, csrng)
                }""",
"""            Steps::BrMsKs => match params.lwe_secret_key_type() {
                LWESecretKeyType::Binary => Polynomial::random_with_binary(ring_dimension, csrng),
                LWESecretKeyType::Ternary => {
                    Polynomial::random_with_ternary(ring_dimension, csrng)
                }"""), ("fhe_core/src/secret_key.rs",
"                RingSecretKeyType::Gaussian => unimplemented!(),\n", "")],
FIELD + """
use fhe_core::*; use rand::SeedableRng;
fn main() {
    for (l, r) in [(LWESecretKeyType::Binary, RingSecretKeyType::Ternary), (LWESecretKeyType::Ternary, RingSecretKeyType::Binary)] {
        let p = Parameters::<u16, Fp>::new(ConstParameters { lwe_dimension: 32, lwe_plain_modulus: 4, lwe_cipher_modulus: 1024, lwe_noise_standard_deviation: 0.0, lwe_secret_key_type: l,
            ring_dimension: 256, ring_modulus: P, ring_noise_standard_deviation: 0.0, ring_secret_key_type: r, blind_rotation_basis_bits: 7, steps: Steps::BrMsKs, key_switching_basis_bits: 3, key_switching_standard_deviation: 0.0 }).unwrap();
        let sk = SecretKeyPack::new(p, &mut rand::rngs::StdRng::seed_from_u64(6));
        let minus = sk.ring_secret_key().iter().any(|v| v.value() == P - 1);
        assert_eq!(minus, r == RingSecretKeyType::Ternary);
    }
}
""", "a step order with key switching last and different key types for LWE and ring", "the ring secret is drawn with the key type of the LWE secret")
