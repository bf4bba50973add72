DONE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C32".split()
TODO = "check under construction"
_p = prop


def prop(id, *a, **k):
    if "claimed" not in k:
        k["claimed"] = id in DONE
        k.setdefault("reason", TODO)
    _p(id, *a, **k)


prop("C01", "Derived prime fields compute exactly the arithmetic of integers modulo p",
     "For a field type derived from a declared prime modulus, converting any raw word, adding, subtracting, negating, multiplying, raising to any power, inverting and dividing (by value, by reference or in place) give the canonical residue that integer arithmetic modulo the prime gives. Every non-zero element times its inverse is one, and the zero, one, minus-one and maximum constants are the residues they name.",
     "all element pairs, all raw words and all exponents of the word type, for 8/16/32/64-bit fields up to the largest accepted modulus",
     "tests draw a few random elements of one or two moduli; carries and correction steps that fail on rare residues are not hit",
     [D + "ops.rs", D + "field.rs", D + "basic.rs", A + "modulus/barrett/ops.rs", A + "reduce/macros.rs"],
     [("operator impls generated by the derive", D + "ops.rs"), ("square-and-multiply exponentiation", A + "modulus/barrett/ops.rs")])
prop("C02", "Barrett modular arithmetic is exact for every operand and admissible modulus",
     "For every modulus the constructor accepts, reducing a single word, a double word or a longer little-endian word sequence, and adding, subtracting, negating, multiplying or taking dot products of residues, return exactly the integer result modulo the modulus, in the range 0..modulus. No operation overflows or panics on in-range operands, whatever the vector length.",
     "all words and word pairs, all residue pairs, every 8-bit modulus and boundary moduli of the wider words, vectors of every length up to the bound",
     "the existing tests reduce a few random values; a wrong quotient estimate shows for a handful of operands out of 2^128, and vector tests use one length",
     [A + "modulus/barrett/internal_macros.rs", A + "modulus/barrett/ops.rs", A + "reduce/macros.rs", A + "primitive/widening/carrying_mul.rs"],
     [("quotient estimate and correction", A + "modulus/barrett/internal_macros.rs"), ("modular add/sub/neg of words", A + "reduce/macros.rs")])
prop("C03", "Lazy and fused modular operations stay congruent and within their range",
     "Every lazily reduced operation returns a value congruent to the exact result and below twice the modulus, and a fully reducing fused multiply-add returns the canonical residue. This holds for every operand in the range the operation accepts, including operands that are themselves lazily reduced.",
     "all operands in the accepted ranges (words, double words, lazily reduced residues)",
     "lazy results are only ever observed after a later full reduction in tests, on random data",
     [A + "modulus/barrett/internal_macros.rs", D + "fhe_field.rs", A + "reduce/lazy_ops.rs", A + "field/mod.rs"],
     [("lazy reduction without the final correction", A + "modulus/barrett/internal_macros.rs"), ("fused multiply-add of derived fields", D + "fhe_field.rs")])
prop("C04", "Multiplication by a precomputed constant factor is exact",
     "Multiplying any word by a residue with precomputed quotient gives a value congruent to the product and below twice the modulus in lazy form, and exactly the residue of the product in reduced form. The precomputed quotient is the floor of the residue times the word base over the modulus.",
     "every residue, every word operand, 8/16/32/64-bit words, boundary moduli",
     "tests multiply a few random numbers",
     [A + "modulus/shoup/mod.rs", A + "modulus/shoup/internal_macros.rs"],
     [("precomputed-quotient multiplication", A + "modulus/shoup/internal_macros.rs")])
prop("C05", "Arithmetic modulo a power of two wraps exactly",
     "For every power-of-two modulus of a word type, reduction, addition, subtraction, negation, multiplication, exponentiation and dot products return the integer result modulo the modulus. The constructor accepts exactly the powers of two greater than one.",
     "all operands and all power-of-two moduli of 8/16/32/64-bit words",
     "used only through LWE tests with one modulus",
     [A + "modulus/powof2/mod.rs", A + "modulus/powof2/internal_macros.rs"],
     [("mask-based reduction", A + "modulus/powof2/internal_macros.rs")])
prop("C06", "BabyBear Montgomery arithmetic agrees with arithmetic modulo 2^31-2^27+1",
     "Converting into and out of the Montgomery domain is a bijection on residues, and addition, subtraction, negation, multiplication, division, inversion and exponentiation performed in that domain agree with integer arithmetic modulo the prime. Results are always canonical.",
     "all residue pairs (and all words for conversions)",
     "tests use random samples; the final correction of the Montgomery reduction matters for few inputs",
     [A + "modulus/baby_bear/mod.rs", A + "modulus/baby_bear/ops.rs"],
     [("Montgomery reduction", A + "modulus/baby_bear/mod.rs")])
prop("C07", "Goldilocks arithmetic agrees with arithmetic modulo 2^64-2^32+1",
     "Adding, subtracting, negating and multiplying words modulo the 64-bit prime, including the non-canonical words these operations may themselves return, gives values congruent to the exact integer result. Reduction and canonicalisation return the residue below the prime. Exponentiation, inversion and division of canonical residues agree with the definition, and inverting either word that stands for zero fails.",
     "all pairs of 64-bit words",
     "double-carry cases have probability about 2^-32 per random sample",
     [A + "modulus/goldilocks/mod.rs", A + "modulus/goldilocks/ops.rs"],
     [("carry folding with the small epsilon", A + "modulus/goldilocks/mod.rs")])
prop("C08", "Wide word arithmetic returns the exact double-word result",
     "Carrying addition, borrowing subtraction, widening multiplication and multiply-with-carry on every unsigned word type return exactly the low word and the carry, borrow or high word of the integer result. The high-word-only variants agree with the full ones.",
     "all words and carry bits, for every supported width",
     "tests compare a few random values per type",
     [A + "primitive/widening/carrying_add.rs", A + "primitive/widening/borrowing_sub.rs", A + "primitive/widening/widening_mul.rs", A + "primitive/widening/carrying_mul.rs", A + "primitive/wrapping.rs"],
     [("carry chains built from wider words or half words", A + "primitive/widening/")])
prop("C09", "GCD, extended GCD and modular inverses satisfy their defining identities",
     "The greatest common divisor divides both inputs and is a multiple of no larger common divisor; the extended variant also returns coefficients whose combination of the inputs is that divisor. A modular inverse is returned exactly when the divisor is one, lies below the modulus and times the input is one; otherwise an error (or, for the unchecked form, a panic) results.",
     "all input pairs of the word type, within the stated width bound",
     "tests use random pairs; sign and swap cases are easily missed",
     [A + "utils/gcd.rs", A + "reduce/macros.rs"],
     [("Euclid loop with sign bookkeeping", A + "utils/gcd.rs"), ("inverse normalisation", A + "reduce/macros.rs")])
prop("C10", "Primality testing accepts primes and rejects composites",
     "The probabilistic primality test reports every prime as prime, and reports a composite as prime only if every drawn witness is a strong liar for it. Field types can therefore only be validated for moduli that pass it.",
     "all odd numbers up to the bound and all witness choices",
     "tests try a few known primes and composites with random witnesses",
     [A + "utils/prime.rs", A + "field/prime_fields.rs"],
     [("Miller-Rabin rounds", A + "utils/prime.rs")])
prop("C11", "Digit decomposition is exact and recomposes to the original value",
     "Splitting a value into digits of the configured power-of-two base gives the declared number of digits, each below the base, whose weighted sum is the original value, whatever the destination held before. The successive least-significant-digit extraction yields the same digits in the same order, coefficient by coefficient for polynomials.",
     "all field values, all base widths of the field, any previous destination content",
     "tests check random polynomials with one base and fresh zeroed destinations",
     [D + "decomposable_field.rs", A + "decompose_basis.rs", A + "polynomial/native_polynomial.rs", L + "utils/decompose_basis.rs"],
     [("digit extraction by mask and shift", D + "decomposable_field.rs"), ("number of digits", A + "decompose_basis.rs")])
prop("C12", "The number-theoretic transform is the negacyclic transform and inverts exactly",
     "The forward transform evaluates a polynomial at the odd powers of a primitive root in the documented order, the inverse transform undoes it for every input, and pointwise products of transforms are negacyclic convolutions. In-place, lazy and slice forms agree on canonical residues.",
     "all coefficient vectors for the stated dimensions and moduli",
     "tests transform one random polynomial; a wrong twiddle or reduction bound shows only for particular coefficients",
     [A + "transformation/ntt_table.rs", A + "transformation/mod.rs", D + "ntt.rs"],
     [("butterfly loops over bit-reversed root tables", A + "transformation/ntt_table.rs"), ("root search and table generation", D + "ntt.rs")])
prop("C13", "Transforms of monomials equal the transform of the monomial polynomial",
     "For every degree and coefficient, the dedicated routines that write the transform of c*X^d, of X^d and of -X^d give exactly what the general transform gives for that one-term polynomial modulo X^N+1, so that degrees from N on come out as the negated lower monomial.",
     "all degrees below twice the dimension and all coefficients",
     "tests pick random degrees",
     [D + "ntt.rs", A + "transformation/ntt_table.rs"],
     [("index arithmetic into ordinal root powers", A + "transformation/ntt_table.rs")])
prop("C14", "Polynomial operations implement the ring of polynomials modulo X^N+1",
     "Addition, subtraction, negation, scalar and full products of polynomials, in coefficient and in transformed form, in every owned, borrowed and in-place variant, agree with the definition modulo X^N+1 over the field. Conversions between the two forms, evaluation, resizing and accumulating products respect the same ring structure.",
     "all coefficient values for the stated dimensions",
     "tests use a handful of random polynomials and check a few identities",
     [A + "polynomial/native_polynomial.rs", A + "polynomial/ntt_polynomial.rs"],
     [("coefficient-wise and transformed products", A + "polynomial/")])
prop("C15", "Ring ciphertext operations act linearly and rotations multiply by monomials",
     "Ring ciphertext addition, subtraction, negation, products with polynomials and multiplication by a monomial of any degree below 2N (also minus one) apply the same ring operation to both components, wrapping with a sign change at X^N. In-place, out-of-place and transformed variants give identical ciphertexts.",
     "all component coefficients, all rotation amounts below 2N, for the stated dimensions",
     "tests rotate by few amounts on random data; the sign boundary has special cases",
     [L + "rlwe.rs"],
     [("rotation with sign change", L + "rlwe.rs")])
prop("C16", "Extracting a coefficient of a ring ciphertext preserves its decryption",
     "The LWE ciphertext extracted from a ring ciphertext at any index decrypts, under the coefficient vector of the ring key, to exactly that coefficient of the ring decryption; the in-place and reversed-order forms are equivalent.",
     "all ciphertext and key coefficients, all indices, for the stated dimensions",
     "tests extract index 0 and compare noisy decryptions",
     [L + "rlwe.rs", L + "lwe.rs"],
     [("coefficient reordering with negation", L + "rlwe.rs")])
prop("C17", "Gadget and RGSW products multiply the plaintext exactly up to gadget noise",
     "Multiplying a polynomial by a gadget ciphertext, or a ring ciphertext by an RGSW ciphertext, yields a ciphertext whose phase is the product of the plaintexts plus exactly the digits times the ciphertext noise. With noise-free ciphertexts the phase is exact, for transformed and coefficient forms alike.",
     "all plaintexts, masks, keys and noises for the stated dimensions and bases",
     "tests compare decrypted bits on random data where an error can hide below the noise",
     [L + "gadget/rlwe.rs", L + "rgsw.rs", L + "rlwe.rs", L + "utils/space.rs"],
     [("digit-by-digit accumulation", L + "gadget/rlwe.rs")])
prop("C18", "LWE encryption decrypts correctly and is additively homomorphic",
     "Encrypting any message with noise below a quarter of the message step decrypts to that message, for every key, mask and supported key type. Sums, differences, negations, scalar multiples, additions of constants and modulus-aware variants of ciphertexts have the phase obtained by the same operation on phases.",
     "all keys, masks, messages and in-range noises for the stated dimension",
     "tests run random keys with Gaussian noise that never gets near the bound",
     [L + "lwe.rs", F + "secret_key.rs", B + "encrypt.rs", B + "decrypt.rs"],
     [("phase computation", F + "secret_key.rs"), ("component-wise ciphertext arithmetic", L + "lwe.rs")])
prop("C19", "Message encoding and decoding are inverse and decoding rounds to nearest",
     "Encoding places a message at the matching multiple of the ciphertext modulus divided by the plaintext modulus; decoding returns the nearest multiple's index, modulo the plaintext modulus, for every ciphertext value. Decoding an encoding perturbed by less than half a step returns the message.",
     "all messages, all ciphertext values, all power-of-two plaintext and ciphertext moduli",
     "tests use the two shipped moduli and random values",
     [F + "plaintext.rs"],
     [("shift-based scaling with rounding", F + "plaintext.rs")])
prop("C20", "Modulus switching rounds every component to the nearest scaled value",
     "Switching a ciphertext between moduli replaces every component by the scaled value rounded to nearest, reduced modulo the target modulus, in all forms (between LWE moduli, from a ring modulus, in place). The resulting phase differs from the scaled phase by at most half a unit per key coefficient plus one half.",
     "all component values and the stated modulus pairs, including values at rounding boundaries and wrap-around",
     "tests compare random components; exact ties and the value that rounds up to the modulus itself are rare",
     [F + "modulus_switch.rs"],
     [("scaled rounding", F + "modulus_switch.rs")])
prop("C21", "LWE key switching preserves the phase under the new key",
     "Switching an LWE ciphertext with a key-switching key built from noise-free encryptions yields a ciphertext whose phase under the output key equals the phase under the input key, for every ciphertext and both keys. With noise, the phase changes by exactly the digits times the noises.",
     "all ciphertexts, keys and masks for the stated dimensions and base",
     "tests only see the decrypted bit",
     [F + "key_switch/lwe.rs"],
     [("digit decomposition against the switching key", F + "key_switch/lwe.rs")])
prop("C22", "Ring key switching preserves the phase under the new key",
     "Converting an LWE ciphertext under the ring key into one under the LWE key through the ring switching key keeps the phase, up to exactly the digits times the switching noise, for every ciphertext, including dimensions that need padding or several blocks.",
     "all ciphertexts, keys, masks for the stated dimensions",
     "tests only see the decrypted bit",
     [F + "key_switch/rlwe.rs"],
     [("packing the LWE mask into ring elements", F + "key_switch/rlwe.rs")])
prop("C23", "Blind rotation multiplies the accumulator by X to the minus phase",
     "Blind rotation of a test polynomial by an LWE ciphertext with a noise-free bootstrapping key yields a ring ciphertext whose phase is the test polynomial times X to the (b minus mask-times-secret) power, for binary and ternary secrets, every mask value and every secret.",
     "all masks and bodies modulo 2N and all secrets for the stated dimensions",
     "tests use random masks; a wrong sign or skipped index can hide below the noise",
     [F + "blind_rotation/binary.rs", F + "blind_rotation/ternary.rs", F + "blind_rotation/mod.rs"],
     [("accumulator update per secret coefficient", F + "blind_rotation/")])
prop("C24", "Boolean gates compute their truth tables on all encrypted inputs",
     "For every combination of input bits and every noise within the decryption margin, each two-input gate, NOT, majority and multiplexer returns a ciphertext that decrypts to the truth-table value, for every supported order of key and modulus switching. The underlying bootstrap returns, for every input phase, the value of the given lookup table at that phase (with X^N = -1), raised by Q/8 and scaled to the LWE modulus, up to rounding.",
     "all input bits and all phases within the noise margin of each input",
     "tests run all truth-table rows but only with small sampled noise",
     [B + "bfhe/evaluate.rs", B + "bfhe/parameters.rs"],
     [("linear combination and lookup-table per gate", B + "bfhe/evaluate.rs")])
prop("C25", "Samplers return only supported values and use randomness as specified",
     "Uniform field sampling returns only canonical residues, each reachable and with rejection that removes bias; binary and ternary samplers return only zero, one and minus one with the documented frequencies; Gaussian sampling keeps exactly the draws within the stated limit of the mean and maps a kept draw to the residue of the nearest integer. This holds for every output stream of the random generator.",
     "all random-generator outputs",
     "tests sample streams of one generator and look at sums",
     [A + "random.rs", A + "field/mod.rs", A + "utils/sample.rs", L + "utils/sample.rs", F + "utils.rs"],
     [("rejection threshold", A + "field/mod.rs"), ("bit consumption of binary/ternary sampling", A + "utils/sample.rs")])
prop("C26", "Parameter validation accepts exactly the consistent configurations",
     "Building scheme parameters fails for a ring dimension that is not a power of two and for a ring modulus that is not one modulo twice the dimension, rejects plaintext and ciphertext moduli that are not powers of two or are in the wrong order, and otherwise keeps every given value. Accessors return what was given.",
     "all numeric parameter values",
     "tests build the shipped parameter sets only",
     [F + "parameter.rs", F + "error.rs"],
     [("checked constructor", F + "parameter.rs")], over=("configurations",))
prop("C27", "Serialisation round trips and rejects or normalises foreign data",
     "Serialising a field element, alone or inside tuples, options, arrays and vectors, and deserialising it returns an equal element. Deserialising any byte string of a raw value never yields an element outside the canonical range: a foreign value is taken modulo the prime or refused.",
     "all element values and all encoded byte strings of the stated length",
     "no test serialises",
     [D + "basic.rs", D + "field.rs"],
     [("deserialisation through the reducing constructor", D + "basic.rs")])
prop("C28", "Bit reversal and bit utilities match their definition",
     "Bit-reversal permutes by reversing the low index bits, is its own inverse and covers every power-of-two length; word bit reversal and bit-count helpers agree with the definition of the word.",
     "all words and all index widths within the bound",
     "tests use a few lengths",
     [A + "utils/reverse.rs", A + "primitive/bits.rs"],
     [("index bit reversal", A + "utils/reverse.rs")])
prop("C29", "The block generator is a deterministic counter-mode stream",
     "The pseudo-random block generator outputs the block cipher of consecutive counters under the seed, no counter used twice, independent of how the output is split into requests, and block operations (xor, bit access, conversion) act on the 128 bits as documented.",
     "all seeds, all split patterns up to the bound, with the cipher as an uninterpreted permutation",
     "tests compare few fixed calls",
     [A + "utils/prg.rs", A + "utils/block.rs", A + "utils/aes.rs"],
     [("counter handling", A + "utils/prg.rs")], over=("inputs", "histories"))
prop("C30", "Concurrent use of a field's transform tables is race-free and consistent",
     "When two threads ask a transformed field for tables, initialise tables or multiply polynomials at once, whether the tables are cached or not, no schedule has a data race on the shared cache or on a table; each thread gets a complete table, both get the same table for a given dimension, later requests return that table, and products are right.",
     "all interleavings of the two threads' accesses to shared memory",
     "tests are single threaded on this path, and a sampled schedule rarely meets the window",
     [D + "ntt.rs", A + "transformation/ntt_table.rs"],
     [("table cache behind a lock", D + "ntt.rs")], over=("schedules",),
     note="Two threads, one or two operations each, sequentially consistent memory: for race freedom the interleaving of the recorded accesses is symbolic and the solver decides whether two conflicting ones can be adjacent; outcomes with one preemption at any atomic access. Relaxed-memory effects are outside. Counterexamples are replayed over the real crates under Miri.")
prop("C31", "Noise and masks follow the security distribution",
     "Key, mask and noise samples are statistically indistinguishable from the distributions the security estimate assumes.",
     "the distribution over all generator seeds",
     "needs statistics or a proof about real-valued sampling",
     [L + "utils/sample.rs", A + "random.rs"],
     [("Gaussian sampling by an external crate", A + "random.rs")], over=("inputs",), claimed=False,
     reason="a statement about distributions, not about each input: there is no assertion over single symbolic inputs for a solver to decide; the per-draw part (support, rejection, rounding) is C25")
prop("C32", "Secret key packs have the declared form, and their parts fit together",
     "For every output stream of the random generator, a generated LWE secret has the declared dimension and only values its key type allows (zero, one and, if ternary, minus one modulo the ciphertext modulus), and so has the ring secret. When the step order shares the key, the ring secret is the image of the LWE secret; otherwise every value of both secrets is governed by random bits of its own, with the frequencies of its key type. The stored transformed ring secret is the transform of the ring secret, and the pack keeps the parameters it was made from.",
     "all random-generator outputs, all key types and step orders",
     "tests generate a few keys and use them as they come; a secret that repeats randomness or is stored inconsistently still decrypts",
     [F + "secret_key.rs", "bool/src/key_gen.rs"],
     [("key generation per step order", F + "secret_key.rs")])
