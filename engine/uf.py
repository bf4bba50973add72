"""AES instructions.

The byte substitution and the two kinds of round are uninterpreted functions of their argument; everything
around them (key schedule, xors with round keys, counters) is encoded exactly.  Arguments are put into a
normal form (per byte, a set of xored leaves), so that equal arguments are one term.  Evaluation uses the
real cipher (FIPS-197), as does the native replay.
"""
import terms as T
from terms import isc


def _tables():
    p, q, box = 1, 1, [0] * 256
    while True:
        p = p ^ ((p << 1) & 255) ^ (0x1b if p & 128 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 255
        if q & 128:
            q ^= 9
        x = q
        for k in (1, 2, 3, 4):
            x ^= ((q << k) | (q >> (8 - k))) & 255
        box[p] = x ^ 0x63
        if p == 1:
            break
    box[0] = 0x63
    return box


SBOX = _tables()


def last(s):
    b = s.to_bytes(16, "little")
    return int.from_bytes(bytes(SBOX[b[(i + 4 * (i % 4)) % 16]] for i in range(16)), "little")


def _x2(v):
    return ((v << 1) & 255) ^ (0x1b if v & 128 else 0)


def rnd(s):
    b = last(s).to_bytes(16, "little")
    o = []
    for c in range(4):
        v = b[4 * c:4 * c + 4]
        for i in range(4):
            o.append(_x2(v[i]) ^ _x2(v[(i + 1) % 4]) ^ v[(i + 1) % 4] ^ v[(i + 2) % 4] ^ v[(i + 3) % 4])
    return int.from_bytes(bytes(o), "little")


F = {"aes_sub": (8, lambda x: SBOX[x]), "aes_round": (128, rnd), "aes_last": (128, last)}


def evaluate(name, args, w):
    return F[name][1](args[0]) & T.mask(w)


def argwidths(name, n):
    return [F[name][0]]


def leaves(t, w, pos, memo):
    """byte t[pos +: 8] of the w-bit term t as (xor set of 8-bit terms, constant)"""
    if isc(t):
        return frozenset(), (t >> pos) & 255
    k = (t.id, pos)
    r = memo.get(k)
    if r is None:
        r = memo[k] = _leaves(t, w, pos, memo)
    return r


def _comb(a, b):
    return a[0] ^ b[0], a[1] ^ b[1]


def _leaves(t, w, pos, memo):
    op, a = t.op, t.a
    if pos >= w:
        return frozenset(), 0
    if pos + 8 <= w:
        if op == "xor":
            return _comb(leaves(a[0], w, pos, memo), leaves(a[1], w, pos, memo))
        if op == "sub" and isc(a[0]) and a[0] == T.mask(w):
            x = leaves(a[1], w, pos, memo)
            return x[0], x[1] ^ 255
        if op == "add":
            hs = [T.known_bits_max(x, w) for x in a]
            if hs[0] & hs[1] == 0:
                return _comb(leaves(a[0], w, pos, memo), leaves(a[1], w, pos, memo))
        if op == "concat":
            wl = t.extra
            if pos >= wl:
                return leaves(a[0], w - wl, pos - wl, memo)
            if pos + 8 <= wl:
                return leaves(a[1], wl, pos, memo)
        if op == "zext":
            wi = T.width(a[0])
            if pos >= wi:
                return frozenset(), 0
            if pos + 8 <= wi:
                return leaves(a[0], wi, pos, memo)
        if op == "trunc":
            return leaves(a[0], T.width(a[0]), pos, memo)
        if op == "lshr" and isc(a[1]) and a[1] % 8 == 0:
            return (frozenset(), 0) if pos + a[1] >= w else leaves(a[0], w, pos + a[1], memo)
        if op == "shl" and isc(a[1]) and a[1] % 8 == 0:
            return (frozenset(), 0) if pos < a[1] else leaves(a[0], w, pos - a[1], memo)
        if op == "and" and isc(a[1]) and (a[1] >> pos) & 255 in (0, 255):
            return leaves(a[0], w, pos, memo) if (a[1] >> pos) & 255 else (frozenset(), 0)
    x = T.slice_(t, w, pos, 8)
    return (frozenset(), x) if isc(x) else (frozenset([x]), 0)


MEMO = {}


def norm(t, w):
    if isc(t):
        return t
    r = rw = None
    for p in range(0, w, 8):
        ls, c = leaves(t, w, p, MEMO)
        b = 0
        for x in sorted(ls, key=lambda x: x.id):
            b = T.xor(b, x, 8) if not (isc(b) and b == 0) else x
        b = T.xor(b, c, 8)
        r, rw = (b, 8) if r is None else (T.concat(b, 8, r, rw), rw + 8)
    return r


def bit(t, w, pos):
    """bit pos of t: the normal form of the byte that holds it, its position there, whether complemented"""
    neg = 0
    while not isc(t):
        op, a = t.op, t.a
        if op == "trunc":
            t, w = a[0], T.width(a[0])
        elif op == "zext" and pos < T.width(a[0]):
            t, w = a[0], T.width(a[0])
        elif op == "lshr" and isc(a[1]) and pos + a[1] < w:
            t, pos = a[0], pos + a[1]
        elif op == "slt" and isc(a[1]) and a[1] == 0:
            t, w = a[0], t.extra
            pos = w - 1
        elif op == "ule" and isc(a[0]) and a[0] == 1 << (t.extra - 1):
            t, w = a[1], t.extra
            pos = w - 1
        elif op == "not":
            t, neg = a[0], neg ^ 1
        elif op == "eq" and isc(a[1]) and a[1] == 0 and not isc(a[0]) and a[0].op == "and" and isc(a[0].a[1]) and bin(a[0].a[1]).count("1") == 1:
            w, pos, neg = t.extra, a[0].a[1].bit_length() - 1, neg ^ 1
            t = a[0].a[0]
        else:
            break
    if isc(t) or w < 8:
        return None
    x = leaves(t, w, pos & ~7, MEMO)
    return x[0], pos & 7, (x[1] >> (pos & 7) & 1) ^ neg


def difference(a, b, w):
    """a ^ b as a constant, where the normal forms show it to be one"""
    if T.hi(a) <= 1 and T.hi(b) <= 1:
        x = bit(a, w, 0)
        y = x and bit(b, w, 0)
        return x[2] ^ y[2] if y and x[:2] == y[:2] else None
    if w % 8:
        return None
    c = 0
    for p in range(0, w, 8):
        x, y = leaves(a, w, p, MEMO), leaves(b, w, p, MEMO)
        if x[0] != y[0]:
            return None
        c |= (x[1] ^ y[1]) << p
    return c


def app(name, x):
    w = F[name][0]
    x = norm(x, w)
    return F[name][1](x) if isc(x) else T.uf(name, (x,), w)


def join(v, ew):
    r, rw = v[0], ew
    for x in v[1:]:
        r = T.concat(x, ew, r, rw)
        rw += ew
    return r


def split(x, w, ew):
    return tuple(T.slice_(x, w, i, ew) for i in range(0, w, ew))


def intrinsic(E, op, a, tys, rt):
    if op in ("x86.aesni.aesenc", "x86.aesni.aesenclast"):
        r = split(app("aes_last" if op.endswith("last") else "aes_round", join(a[0], 64)), 128, 64)
        return tuple(T.xor(x, y, 64) for x, y in zip(r, a[1]))
    if op == "x86.aesni.aeskeygenassist":
        x, imm = join(a[0], 64), a[1]
        o = []
        for half in (1, 3):
            s = [app("aes_sub", T.slice_(x, 128, 32 * half + 8 * i, 8)) for i in range(4)]
            o.append(join(s, 8))
            o.append(T.xor(join(s[1:] + s[:1], 8), imm, 32))
        return split(join(o, 32), 128, 64)
    E.unsupported("intrinsic llvm." + op)


def b_sub(E, x):
    return app("aes_sub", x)


def b_round(E, lo, hi, fin, half):
    r = app("aes_last" if fin else "aes_round", join((lo, hi), 64))
    return T.slice_(r, 128, 64 * half, 64)


BUILTIN = {"@sym_aes_sub": b_sub, "@sym_aes_round": b_round}
