seed("c02-slice", "C02", [("algebra/src/modulus/barrett/internal_macros.rs",
"""                        if v < modulus.value() {
                            v
                        } else {
                            v.reduce(modulus)""",
"""                        if v <= modulus.value() {
                            v
                        } else {
                            v.reduce(modulus)""")],
"""use algebra::{modulus::BarrettModulus, reduce::Reduce};
fn main() {
    for m in [3u32, 97, 132120577, (1 << 30) - 1] {
        let md = BarrettModulus::<u32>::new(m);
        for v in [0, 1, m - 1, m, m + 1, u32::MAX] { let s = [v]; assert_eq!((&s[..]).reduce(md), v % m); }
    }
}
""", "a one-word sequence whose only word equals the modulus", "reducing a word sequence returns the modulus itself instead of 0")
seed("c02-subassign", "C02", [("algebra/src/reduce/macros.rs",
"""                if *self >= rhs {
                    *self -= rhs;
                } else {
                    *self += modulus - rhs;
                }""",
"""                if *self > rhs {
                    *self -= rhs;
                } else {
                    *self += modulus - rhs;
                }""")],
"""use algebra::{modulus::BarrettModulus, reduce::SubReduceAssign};
fn main() {
    let m = 97u16; let md = BarrettModulus::<u16>::new(m);
    for a in 0..m { for b in 0..m { let mut x = a; x.sub_reduce_assign(b, md); assert_eq!(x, (a + m - b) % m); } }
}
""", "in-place subtraction of equal residues", "x -= x leaves the modulus instead of 0")
seed("c03-addmul", "C03", [("algebra_derive/src/fhe_field.rs",
"Self(::algebra::CarryingMul::carrying_mul(a.0, b.0, self.0).reduce(<Self as ::algebra::ModulusConfig>::MODULUS))",
"Self(::algebra::CarryingMul::carrying_mul(a.0, b.0, self.0).lazy_reduce(<Self as ::algebra::ModulusConfig>::MODULUS))"),
("algebra_derive/src/fhe_field.rs",
"""            fn add_mul(self, a: Self, b: Self) -> Self {
                use ::algebra::reduce::Reduce;""",
"""            fn add_mul(self, a: Self, b: Self) -> Self {
                use ::algebra::reduce::LazyReduce;""")],
"""use algebra::{derive::{Field, Prime, NTT, DecomposableField, FheField}, Field as F, FheField as G};
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 132120577]
pub struct Fp32(u32);
fn main() {
    let p = 132120577u64;
    let mut s = 1u64;
    for _ in 0..2_000_000 {
        let mut n = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s >> 16) % p };
        let (a, b, c) = (n(), n(), n());
        let r = Fp32::new(a as u32).add_mul(Fp32::new(b as u32), Fp32::new(c as u32));
        assert_eq!(r.value() as u64, (a + b * c) % p);
    }
    for a in 0..40u32 { for b in 0..40u32 {
        let r = Fp32::new(132120577 - 1 - a).add_mul(Fp32::new(132120577 - 1 - b), Fp32::new(132120577 - 1));
        assert_eq!(r.value() as u64, ((p - 1 - a as u64) + (p - 1 - b as u64) * (p - 1)) % p);
    } }
}
""", "operands for which the quotient estimate is one too small", "the fully reducing multiply-add returns a value not below the modulus")
seed("c04-assign", "C04", [("algebra/src/modulus/shoup/internal_macros.rs",
"*self = if tmp >= modulus { tmp - modulus } else { tmp };", "*self = if tmp > modulus { tmp - modulus } else { tmp };")],
"""use algebra::{modulus::ShoupFactor, reduce::MulReduceAssign};
fn main() {
    let p = 97u32;
    for w in 0..p { let f = ShoupFactor::<u32>::new(w, p);
        for x in (0..300).chain([u32::MAX / p * p, u32::MAX]) { let mut y = x; y.mul_reduce_assign(f, p); assert_eq!(y as u64, x as u64 * w as u64 % p as u64); } }
}
""", "an operand that is a non-zero multiple of the modulus", "the in-place product is the modulus instead of 0")
seed("c09-gcd", "C09", [("algebra/src/utils/gcd.rs", "let shift = (m | n).trailing_zeros();", "let shift = (m & n).trailing_zeros();")],
"""use algebra::utils::ExtendedGCD;
fn g(a: u32, b: u32) -> u32 { if b == 0 { a } else { g(b, a % b) } }
fn main() { for a in 1..200u32 { for b in 1..200u32 { assert_eq!(ExtendedGCD::gcd(a, b), g(a, b), "{a} {b}"); } } }
""", "operands divisible by different powers of two whose lowest common set bit is higher", "gcd is multiplied by a power of two")
seed("c10-root", "C10", [("algebra/src/utils/prime.rs",
"""                        if x == 1 {
                            return false;
                        }""",
"""                        if x == 1 {
                            continue 'next_round;
                        }""")],
"""use algebra::{modulus::BarrettModulus, utils::Prime};
fn main() {
    for n in [118901521u64, 172947529, 216821881, 228842209] { assert!(!BarrettModulus::<u64>::new(n).probably_prime(30), "{n}"); }
    assert!(BarrettModulus::<u64>::new(132120577).probably_prime(30));
}
""", "a Carmichael number without small factors", "a non-trivial square root of one no longer rejects: composites passing the Fermat test are reported prime")
