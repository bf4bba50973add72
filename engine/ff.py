"""Prime-field arithmetic on canonical representatives, kept as polynomials over Z_p.

A term of operator "ffp" is the canonical representative (an integer below p) of a polynomial in
atoms; an atom is any other 64-bit term whose interval lies below p.  Two elements are equal for all
values of their atoms exactly if their normal forms agree (every atom occurs with degree below p in
all the code encoded here).  The harness type SymF (irh/src/symf.rs) sends its operations here."""
import terms as T

isc = T.isc
POLY = {}     # id of an ffp term -> {monomial (tuple of atom ids): coefficient}
ATOM = {}     # id -> atom
SHIFTED = {}  # id of v >> k -> (v, k)
LIMIT = 400000


class TooBig(Exception):
    pass


def poly(x, p):
    if isc(x):
        x %= p
        return {(): x} if x else {}
    if x.op == "ffp":
        return POLY[x.id]
    ATOM[x.id] = x
    return {(x.id,): 1}


def make(d, p):
    if not d:
        return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return c
        if c == 1 and len(m) == 1:
            return ATOM[m[0]]
    items = tuple(sorted(d.items()))
    ids = sorted({i for m in d for i in m})
    t = T.raw("ffp", 64, tuple(ATOM[i] for i in ids), 0, p - 1, (p, items))
    POLY.setdefault(t.id, d)
    return t


def padd(a, b, p, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % p
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b, p):
    if len(a) * len(b) > LIMIT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = m + n if not m or not n or m[-1] <= n[0] else tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * e
    return {m: c % p for m, c in r.items() if c % p}


def fold(x, p):
    """canonical representative of any word"""
    if isc(x):
        return x % p
    if x.hi < p:
        return x
    if x.op == "add" and isc(x.a[1]) and T.hi(x.a[0]) + x.a[1] <= T.mask(64):
        return make(padd(poly(fold(x.a[0], p), p), poly(x.a[1], p), p), p)
    return T.urem(x, p, 64)


def strict(E, x, p, what):
    if isc(x):
        if x >= p:
            E.obligation(1, what)
        return x % p
    if x.hi >= p:
        E.obligation(T.ule(p, x, 64), what)
        return fold(x, p)
    return x


def b_add(E, a, b, p):
    a, b = strict(E, a, p, "sum of a non-canonical field element"), strict(E, b, p, "sum of a non-canonical field element")
    return make(padd(poly(a, p), poly(b, p), p), p)


def b_sub(E, a, b, p):
    a, b = strict(E, a, p, "difference of a non-canonical field element"), strict(E, b, p, "difference of a non-canonical field element")
    return make(padd(poly(a, p), poly(b, p), p, -1), p)


def b_mul(E, a, b, p):
    a, b = strict(E, a, p, "product of a non-canonical field element"), strict(E, b, p, "product of a non-canonical field element")
    try:
        return make(pmul(poly(a, p), poly(b, p), p), p)
    except TooBig:
        E.unsupported("field polynomial too large")


def b_fold(E, a, p):
    return fold(a, p)


def b_inv(E, a, p):
    a = strict(E, a, p, "inverse of a non-canonical field element")
    if not isc(a):
        E.unsupported("inverse of a symbolic field element")
    if a == 0:
        E.do_panic("inverse of zero")
    return pow(a, p - 2, p)


def b_eq(E, a, b, p):
    a, b = strict(E, a, p, "comparison of a non-canonical field element"), strict(E, b, p, "comparison of a non-canonical field element")
    if not isc(a) and not isc(b):
        E.ffq.append((p, a, b))
    return T.eq(a, b, 64)


def b_shr(E, v, k):
    k = E.conc(k, 32)
    r = T.lshr(v, k, 64)
    if not isc(r) and not isc(v):
        base, k0 = SHIFTED.get(v.id, (v, 0))
        if r.op == "lshr":
            SHIFTED[r.id] = (base, k0 + k)
    return r


def b_lsb(E, v, mask, bits, p):
    """the lowest digit of v; mask and width as the caller gives them"""
    bits = E.conc(bits, 32)
    if isc(v) or not isc(mask) or mask != (1 << bits) - 1 or v.id in SHIFTED or v.hi >= p or p < 1 << bits or bits == 0:
        return T.and_(v, mask, 64)
    d = dict(poly(v, p))
    i = 1
    while (p - 1) >> (i * bits):
        x = T.and_(T.lshr(v, i * bits, 64), mask, 64)
        if not (isc(x) and x == 0):
            d = padd(d, poly(x, p), p, -pow(1 << bits, i, p))
        i += 1
    return make(d, p)


def eqhook(a, b):
    """T.eq with at least one ffp operand, both below p"""
    t = a if not isc(a) and a.op == "ffp" else b
    p = t.extra[0]
    if T.hi(a) >= p or T.hi(b) >= p:
        return None
    d = padd(poly(a, p), poly(b, p), p, -1)
    if not d:
        return 1
    if len(d) == 1 and () in d:
        return 0
    # same equality whatever the multiple: make it monic
    items = sorted(d.items())
    k = pow(items[0][1], p - 2, p) if items[0][1] > p // 2 else 1
    x = make({m: c * k % p for m, c in d.items()}, p)
    if isc(x):
        return int(x == 0)
    return T.raw("eq", 1, (x, 0), 0, 1, 64)


def ev(x, a):
    p, items = x.extra
    val = {y.id: v for y, v in zip(x.a, a)}
    s = 0
    for m, c in items:
        for i in m:
            c = c * val[i] % p
        s += c
    return s % p


def confirm(E):
    """second opinion of the solver on the identities settled by normal forms since the last flush:
    for all values of the monomials both sides agree modulo p"""
    q, E.ffq = E.ffq, []
    q = [(p, a, b) for p, a, b in q if T.eq(a, b, 64) == 1]
    if not q:
        return
    import time
    import enc
    t0 = time.time()
    z3 = enc.z3mod()
    s = z3.SolverFor("QF_LIA")
    s.set("timeout", 20000)
    V = {}
    goals = []
    done = set()
    for p, a, b in q:
        if (a.id, b.id) in done:
            continue
        done.add((a.id, b.id))

        def lin(x):
            r = []
            for m, c in poly(x, p).items():
                if m == ():
                    r.append(z3.IntVal(c))
                    continue
                if m not in V:
                    V[m] = z3.Int("m" + "_".join(map(str, m)))
                r.append(z3.IntVal(c) * V[m])
            return z3.Sum(r) if len(r) > 1 else r[0]
        goals.append((lin(a) - lin(b)) % p != 0)
    s.add(z3.Or(goals))
    r = s.check()
    E.stat["queries"] += 1
    E.stat["obligations"] += len(goals)
    E.stat["solver_s"] += time.time() - t0
    if r != z3.unsat:
        E.unsupported("the solver does not confirm a field identity")


T.FFEQ, T.FFEV = eqhook, ev

BUILTIN = {"@ff_add": b_add, "@ff_sub": b_sub, "@ff_mul": b_mul, "@ff_fold": b_fold, "@ff_inv": b_inv, "@ff_eq": b_eq, "@ff_shr": b_shr, "@ff_lsb": b_lsb}
