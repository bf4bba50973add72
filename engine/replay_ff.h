/* native field operations for the harness type SymF (see ff.py) */
static uint64_t st(uint64_t a, uint64_t p) { if (a >= p) done("check", 9999); return a; }
uint64_t ff_add(uint64_t a, uint64_t b, uint64_t p) { return (st(a, p) + st(b, p)) % p; }
uint64_t ff_sub(uint64_t a, uint64_t b, uint64_t p) { return (st(a, p) + p - st(b, p)) % p; }
uint64_t ff_mul(uint64_t a, uint64_t b, uint64_t p) { return (unsigned __int128)st(a, p) * st(b, p) % p; }
uint64_t ff_fold(uint64_t a, uint64_t p) { return a % p; }
uint64_t ff_inv(uint64_t a, uint64_t p) { st(a, p); if (!a) abort(); uint64_t r = 1, e = p - 2; while (e) { if (e & 1) r = ff_mul(r, a, p); a = ff_mul(a, a, p); e >>= 1; } return r; }
_Bool ff_eq(uint64_t a, uint64_t b, uint64_t p) { return st(a, p) == st(b, p); }
uint64_t ff_shr(uint64_t a, uint32_t k) { return k > 63 ? 0 : a >> k; }
uint64_t ff_lsb(uint64_t a, uint64_t mask, uint32_t bits, uint64_t p) { (void)bits; (void)p; return a & mask; }
