"""Hash-consed bit-vector terms with unsigned interval information.

A value is either a plain Python int (concrete) or a T (symbolic).  All integer
semantics are LLVM's two's-complement bit-vector semantics; the interval [lo,hi]
of a term is a sound bound on its unsigned value under the path condition that
held when the term was built."""

import math
import struct


class T:
    __slots__ = ("op", "w", "a", "id", "lo", "hi", "extra", "_h")

    def __repr__(self):
        return pp(self, 4)


def pp(t, d):
    if not isinstance(t, T):
        return str(t)
    if t.op == "var":
        return "%s" % (t.extra,)
    if d == 0:
        return "#%d" % t.id
    return "(%s:%d %s%s)" % (t.op, t.w, " ".join(pp(x, d - 1) for x in t.a), "" if t.extra is None else " ~%s" % (t.extra,))


_table = {}
_next = [1]
FLOAT = -64  # pseudo width of doubles
FFEQ = FFEV = None  # set by ff.py


def raw(op, w, args, lo, hi, extra=None):
    key = (op, w, tuple(x.id if isinstance(x, T) else ("c", x) for x in args), extra)
    t = _table.get(key)
    if t is not None:
        if lo > t.lo:
            t.lo = lo
        if hi < t.hi:
            t.hi = hi
        return t
    t = T()
    t.op, t.w, t.a, t.lo, t.hi, t.extra = op, w, tuple(args), lo, hi, extra
    t.id = _next[0]
    _next[0] += 1
    _table[key] = t
    return t


def var(name, w):
    return raw("var", w, (), 0, (1 << w) - 1, name)


def lo(x):
    return x.lo if isinstance(x, T) else x


def hi(x):
    return x.hi if isinstance(x, T) else x


def isc(x):
    return not isinstance(x, T)


def mask(w):
    return (1 << w) - 1


def tosigned(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def low_zero_bits(t):
    """number of low bits known to be zero"""
    if isc(t):
        return 10 ** 6 if t == 0 else (t & -t).bit_length() - 1
    if t.op == "shl" and isc(t.a[1]):
        return low_zero_bits(t.a[0]) + t.a[1]
    if t.op == "mul" and isc(t.a[1]):
        return low_zero_bits(t.a[0]) + low_zero_bits(t.a[1])
    if t.op == "zext":
        return low_zero_bits(t.a[0])
    if t.op == "concat" :
        l = t.a[1]
        wl = t.extra
        if isc(l) and l == 0:
            return wl + low_zero_bits(t.a[0])
        return low_zero_bits(l)
    if t.op == "and":
        return max(low_zero_bits(t.a[0]), low_zero_bits(t.a[1]))
    if t.op == "ite":
        return min(low_zero_bits(t.a[1]), low_zero_bits(t.a[2]))
    if t.op in ("add", "or", "xor", "sub"):
        return min(low_zero_bits(t.a[0]), low_zero_bits(t.a[1]))
    return 0


def known_bits_max(x, w):
    """mask of bits that may be one"""
    if isc(x):
        return x
    m = mask(x.hi.bit_length())
    if x.op == "and":
        m &= known_bits_max(x.a[0], w) & known_bits_max(x.a[1], w)
    elif x.op in ("or", "xor"):
        m &= known_bits_max(x.a[0], w) | known_bits_max(x.a[1], w)
    elif x.op == "shl" and isc(x.a[1]):
        m &= (known_bits_max(x.a[0], w) << x.a[1]) & mask(w)
    elif x.op == "zext":
        m &= known_bits_max(x.a[0], w)
    elif x.op == "concat":
        m &= (known_bits_max(x.a[0], w) << x.extra) | known_bits_max(x.a[1], w)
    elif x.op == "ite":
        m &= known_bits_max(x.a[1], w) | known_bits_max(x.a[2], w)
    elif x.op == "lshr" and isc(x.a[1]):
        m &= known_bits_max(x.a[0], w) >> x.a[1]
    else:
        z = low_zero_bits(x)
        if z:
            m &= ~mask(min(z, w))
    return m


# ---------------------------------------------------------------- integers
def add(a, b, w):
    M = mask(w)
    if isc(a) and isc(b):
        return (a + b) & M
    if isc(a):
        a, b = b, a
    if not isc(a) and not isc(b) and a.op == "mul" and b.op == "mul" and a.a[0] is b.a[0] and isc(a.a[1]) and isc(b.a[1]):
        return mul(a.a[0], (a.a[1] + b.a[1]) & M, w)
    if isc(b):
        if b == 0:
            return a
        if a.op == "add" and isc(a.a[1]):
            return add(a.a[0], (a.a[1] + b) & M, w)
        if a.op == "sub" and isc(a.a[0]) :
            return sub((a.a[0] + b) & M, a.a[1], w)
    else:
        if b.op == "sub" and b.a[1] is a:
            return b.a[0]
        if a.op == "sub" and a.a[1] is b:
            return a.a[0]
        if a.id > b.id:
            a, b = b, a
    l, h = lo(a) + lo(b), hi(a) + hi(b)
    if isc(b) and l > M:  # always wraps
        l, h = l - M - 1, h - M - 1
    if h > M:
        l, h = quotient_bound(((1, a), (1, b)), w)
    return raw("add", w, (a, b), l, h)


def strip(t):
    while not isc(t) and (t.op == "zext" or (t.op == "trunc" and t.w > 1 and t.a[0].hi <= mask(t.w))):
        t = t.a[0]
    return t


def linear(parts, w, keep=()):
    """{atom id: (signed coefficient, atom)} and constant of a sum, modulo 2^w"""
    R, k = {}, 0
    work = list(parts)
    n = 0
    while work:
        c, t = work.pop()
        n += 1
        if n > 24:
            return None
        if isc(t):
            k += c * t
            continue
        if t.id in keep:
            R[t.id] = ((R[t.id][0] if t.id in R else 0) + c, t)
        elif t.w == w and t.op == "add":
            work += [(c, t.a[0]), (c, t.a[1])]
        elif t.w == w and t.op == "sub":
            work += [(c, t.a[0]), (-c, t.a[1])]
        elif t.w == w and t.op == "mul" and isc(t.a[1]):
            work.append((c * tosigned(t.a[1], w), t.a[0]))
        elif t.w == w and t.op == "shl" and isc(t.a[1]):
            work.append((c << t.a[1], t.a[0]))
        else:
            t = strip(t)
            if isc(t):
                k += c * t
                continue
            o = R.get(t.id)
            R[t.id] = ((o[0] if o else 0) + c, t)
    return R, k


def floor_of(t):
    """(numerator parts, divisor) if t is the exact floor of a linear form by a constant"""
    t = strip(t)
    if isc(t):
        return None
    if t.op == "lshr" and isc(t.a[1]):
        n, d = t.a[0], 1 << t.a[1]
    elif t.op == "udiv" and isc(t.a[1]):
        n, d = t.a[0], t.a[1]
    else:
        return None
    n = strip(n)
    if isc(n) or n.op != "mul" or not isc(n.a[1]) or n.a[0].hi * n.a[1] > mask(n.w):
        return None
    return strip(n.a[0]), n.a[1], d


def quotient_form(parts, w):
    """exact linear form of a wrapping sum in which quotients floor(m*x/d) partly cancel against x itself:
    ([(coefficient, atom)], constant, low, high) with the value in low..high and no wrap left, or None"""
    P = 1 << w
    r = linear(parts, w)
    if r is None:
        return None
    R, k = r
    keep = set()
    for c, t in R.values():
        f = floor_of(t)
        if f is not None and f[0].id not in R:
            keep.add(f[0].id)
    if keep:
        r = linear(parts, w, keep)
        if r is None:
            return None
        R, k = r
    use = False
    form = []
    l = h = k
    for i in list(R):
        if i not in R:
            continue
        c, t = R[i]
        f = floor_of(t)
        if f is None or f[0].id not in R or c == 0:
            continue
        x, m, d = f
        # c*floor(m*x/d) = c*m/d*x - c*e/d with 0 <= e <= d-1
        best = None
        for cc in (c, c - P if c > 0 else c + P):
            cx = R[x.id][0]
            for xx in (cx, cx - P if cx > 0 else cx + P):
                slope = xx * d + cc * m
                a1, a2 = slope * x.lo, slope * x.hi
                lo_, hi_ = min(a1, a2), max(a1, a2)
                if cc > 0:
                    lo_ -= cc * (d - 1)
                else:
                    hi_ -= cc * (d - 1)
                lo_, hi_ = -((-lo_) // d), hi_ // d
                if hi_ - lo_ < P and (best is None or hi_ - lo_ < best[1] - best[0]):
                    best = (lo_, hi_, cc, xx)
        if best is None:
            continue
        use = True
        del R[i]
        del R[x.id]
        l += best[0]
        h += best[1]
        form += [(best[2], t), (best[3], x)]
    if not use:
        return None
    for c, t in R.values():
        c %= P
        if c * 2 >= P:
            c -= P
        l += min(c * t.lo, c * t.hi)
        h += max(c * t.lo, c * t.hi)
        form.append((c, t))
    if l >> w != h >> w:
        return None
    s = (l >> w) << w
    return form, k - s, l - s, h - s


def quotient_bound(parts, w):
    q = quotient_form(parts, w)
    return (0, mask(w)) if q is None else (q[2], q[3])


def sub(a, b, w):
    M = mask(w)
    if isc(b):
        return add(a, (-b) & M, w)
    if a is b:
        return 0
    if not isc(a) and a.op == "add":
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
    l, h = lo(a) - hi(b), hi(a) - lo(b)
    if l < 0:
        l, h = quotient_bound(((1, a), (-1, b)), w)
    return raw("sub", w, (a, b), l, h)


def mul(a, b, w):
    M = mask(w)
    if isc(a) and isc(b):
        return (a * b) & M
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == "mul" and isc(a.a[1]):
            return mul(a.a[0], (a.a[1] * b) & M, w)
    elif a.id > b.id:
        a, b = b, a
    l, h = lo(a) * lo(b), hi(a) * hi(b)
    if h > M:
        l, h = 0, M
    return raw("mul", w, (a, b), l, h)


def udiv(a, b, w):
    if isc(b) and b == 0:
        return 0
    if isc(a) and isc(b):
        return a // b
    if isc(b) and b == 1:
        return a
    if isc(b) and b & (b - 1) == 0:
        return lshr(a, b.bit_length() - 1, w)
    if isc(b):
        return raw("udiv", w, (a, b), lo(a) // b, hi(a) // b) if hi(a) >= b else 0
    return raw("udiv", w, (a, b), 0, hi(a))


def urem(a, b, w):
    if isc(b) and b == 0:
        return 0
    if isc(a) and isc(b):
        return a % b
    if isc(b) and b & (b - 1) == 0:
        return and_(a, b - 1, w)
    if hi(a) < lo(b):
        return a
    return raw("urem", w, (a, b), 0, min(hi(a), hi(b) - 1))


def sdiv(a, b, w):
    if isc(a) and isc(b):
        x, y = tosigned(a, w), tosigned(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if hi(a) < 1 << (w - 1) and hi(b) < 1 << (w - 1):
        return udiv(a, b, w)
    return raw("sdiv", w, (a, b), 0, mask(w))


def srem(a, b, w):
    if isc(a) and isc(b):
        x, y = tosigned(a, w), tosigned(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & mask(w)
    if hi(a) < 1 << (w - 1) and hi(b) < 1 << (w - 1):
        return urem(a, b, w)
    return raw("srem", w, (a, b), 0, mask(w))


def shl(a, b, w):
    M = mask(w)
    if isc(b):
        if b >= w:
            return 0
        if isc(a):
            return (a << b) & M
        if b == 0:
            return a
        h = hi(a) << b
        l = lo(a) << b
        if h > M:
            l, h = 0, M & ~mask(b)
        if a.op == "shl" and isc(a.a[1]):
            return shl(a.a[0], a.a[1] + b, w)
        return raw("shl", w, (a, b), l, h)
    if isc(a) and a == 0:
        return 0
    h = hi(a) << min(hi(b), w)
    return raw("shl", w, (a, b), 0, min(h, M) if h <= M else M)


def lshr(a, b, w):
    if isc(b):
        if b >= w:
            return 0
        if isc(a):
            return a >> b
        if b == 0:
            return a
        if hi(a) >> b == lo(a) >> b:
            return lo(a) >> b
        if a.op == "concat" and a.extra == b:
            return zext(a.a[0], w - b, w)
        if a.op == "lshr" and isc(a.a[1]):
            return lshr(a.a[0], a.a[1] + b, w)
        return raw("lshr", w, (a, b), lo(a) >> b, hi(a) >> b)
    if isc(a) and a == 0:
        return 0
    return raw("lshr", w, (a, b), lo(a) >> min(hi(b), w), hi(a) >> lo(b))


def ashr(a, b, w):
    if isc(a) and isc(b):
        return (tosigned(a, w) >> min(b, w - 1)) & mask(w)
    if hi(a) < 1 << (w - 1):
        return lshr(a, b, w)
    return raw("ashr", w, (a, b), 0, mask(w))


def and_(a, b, w):
    if isc(a) and isc(b):
        return a & b
    if isc(a):
        a, b = b, a
    if a is b:
        return a
    if isc(b):
        if b == 0:
            return 0
        kb = known_bits_max(a, w)
        if kb & ~b == 0:
            return a
        if kb & b == 0:
            return 0
        if a.op == "and" and isc(a.a[1]):
            return and_(a.a[0], a.a[1] & b, w)
        if w == 1:
            return a
        if a.op == "concat" and b == mask(a.extra):
            return zext(a.a[1], a.extra, w)
        if a.op == "ite" and isc(a.a[1]) and isc(a.a[2]):
            return ite(a.a[0], a.a[1] & b, a.a[2] & b, w)
    else:
        if w == 1:
            if a.op == "not" and a.a[0] is b or b.op == "not" and b.a[0] is a:
                return 0
        if known_bits_max(a, w) & known_bits_max(b, w) == 0:
            return 0
        if a.id > b.id:
            a, b = b, a
    return raw("and", w, (a, b), 0, min(hi(a), hi(b)))


def or_(a, b, w):
    if isc(a) and isc(b):
        return a | b
    if isc(a):
        a, b = b, a
    if a is b:
        return a
    if isc(b):
        if b == 0:
            return a
        if b == mask(w):
            return b
    else:
        if w == 1 and (a.op == "not" and a.a[0] is b or b.op == "not" and b.a[0] is a):
            return 1
        if a.id > b.id:
            a, b = b, a
    if w > 1 and known_bits_max(a, w) & known_bits_max(b, w) == 0:
        # disjoint bits: try to see a concat of (hi<<k | lo)
        return raw("add", w, (a, b), lo(a) + lo(b), min(hi(a) + hi(b), mask(w)))
    h = mask(max(hi(a).bit_length(), hi(b).bit_length()))
    return raw("or", w, (a, b), max(lo(a), lo(b)), h)


def xor(a, b, w):
    if isc(a) and isc(b):
        return a ^ b
    if NORM and not isc(a) and not isc(b) and hi(a) <= 1 and hi(b) <= 1:
        r = NORM(a, b, w)
        if r is not None:
            return r
    if isc(a):
        a, b = b, a
    if a is b:
        return 0
    if isc(b):
        if b == 0:
            return a
        if w == 1:
            return not_(a)
        if b == mask(w):
            return sub(mask(w), a, w)
        if a.op == "xor" and isc(a.a[1]):
            return xor(a.a[0], a.a[1] ^ b, w)
    elif a.id > b.id:
        a, b = b, a
    if w > 1 and known_bits_max(a, w) & known_bits_max(b, w) == 0:
        return raw("add", w, (a, b), lo(a) + lo(b), min(hi(a) + hi(b), mask(w)))
    h = mask(max(hi(a).bit_length(), hi(b).bit_length()))
    return raw("xor", w, (a, b), 0, h)


def not_(a):
    if isc(a):
        return a ^ 1
    if a.op == "not":
        return a.a[0]
    if a.op == "ult":
        return ule(a.a[1], a.a[0], a.extra)
    if a.op == "ule":
        return ult(a.a[1], a.a[0], a.extra)
    if a.op == "slt":
        return sle(a.a[1], a.a[0], a.extra)
    if a.op == "sle":
        return slt(a.a[1], a.a[0], a.extra)
    return raw("not", 1, (a,), 1 - a.hi, 1 - a.lo)


def zext(a, w1, w2):
    if isc(a):
        return a
    if w1 == w2:
        return a
    if a.op == "zext":
        return zext(a.a[0], a.extra, w2)
    return raw("zext", w2, (a,), a.lo, a.hi, w1)


def sext(a, w1, w2):
    if isc(a):
        return tosigned(a, w1) & mask(w2)
    if w1 == w2:
        return a
    if a.hi < 1 << (w1 - 1):
        return zext(a, w1, w2)
    if w1 == 1:
        return ite(a, mask(w2), 0, w2)
    return raw("sext", w2, (a,), 0, mask(w2), w1)


def trunc(a, w1, w2):
    if isc(a):
        return a & mask(w2)
    if w1 == w2:
        return a
    if a.op in ("zext", "sext"):
        w0 = a.extra
        if w0 == w2:
            return a.a[0]
        if w0 > w2:
            return trunc(a.a[0], w0, w2)
        if a.op == "zext":
            return zext(a.a[0], w0, w2)
        return sext(a.a[0], w0, w2)
    if a.op == "trunc":
        return trunc(a.a[0], a.extra, w2)
    if a.op == "concat":
        if a.extra == w2:
            return a.a[1]
        if a.extra > w2:
            return trunc(a.a[1], a.extra, w2)
    if a.op == "ite" and (isc(a.a[1]) or isc(a.a[2])):
        return ite(a.a[0], trunc(a.a[1], w1, w2), trunc(a.a[2], w1, w2), w2)
    if w2 == 1:
        return trunc1(a, w1)
    if a.hi <= mask(w2):
        return raw("trunc", w2, (a,), a.lo, a.hi, w1)
    if a.op == "and" and isc(a.a[1]) and (a.a[1] & mask(w2)) == mask(w2):
        return trunc(a.a[0], w1, w2)
    return raw("trunc", w2, (a,), 0, mask(w2), w1)


def trunc1(a, w1):
    return raw("trunc", 1, (a,), 0, 1, w1)


def concat(h, wh, l, wl):
    if isc(h) and isc(l):
        return (h << wl) | l
    if isc(h) and h == 0:
        return zext(l, wl, wh + wl)
    # rejoin adjacent extracts of the same term
    if not isc(h) and not isc(l):
        hb, hp = as_slice(h, wh)
        lb, lp = as_slice(l, wl)
        if hb is lb and hp == lp + wl:
            return slice_(hb, width(hb), lp, wh + wl)
    return raw("concat", wh + wl, (h, l), (lo(h) << wl) + lo(l), (hi(h) << wl) + hi(l), wl)


def width(t):
    return t.w


def as_slice(t, w):
    """(base, bit position) such that t is base[pos +: w]"""
    if t.op == "trunc":
        b = t.a[0]
        if b.op == "lshr" and isc(b.a[1]):
            return b.a[0], b.a[1]
        return b, 0
    return t, 0


def slice_(t, w, pos, n):
    if isc(t):
        return (t >> pos) & mask(n)
    return trunc(lshr(t, pos, w), w, n)


def ite(c, a, b, w):
    if isc(c):
        return a if c else b
    if a is b or (isc(a) and isc(b) and a == b):
        return a
    if w == FLOAT:
        return fraw("ite", (c, a, b), min(flo(a), flo(b)), max(fhi(a), fhi(b)))
    if w == 1:
        if isc(a):
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if isc(b):
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
    if c.op == "not":
        return ite(c.a[0], b, a, w)
    # clamp idioms:  ite(x >= k, x - k, x)
    l, h = min(lo(a), lo(b)), max(hi(a), hi(b))
    la, ha, lb, hb = lo(a), hi(a), lo(b), hi(b)
    if c.op in ("ult", "ule"):
        x, y = c.a
        strict = c.op == "ult"
        if isc(y):  # x < y
            bound = y - 1 if strict else y
            if a is x:
                ha = min(ha, bound)
            r = refine_expr(b, x, bound + 1, hi(x), w)
            if r:
                lb, hb = max(lb, r[0]), min(hb, r[1])
            r = refine_expr(a, x, lo(x), bound, w)
            if r:
                la, ha = max(la, r[0]), min(ha, r[1])
        elif isc(x):  # x < y
            bound = x + 1 if strict else x
            if b is y:
                hb = min(hb, bound - 1)
            r = refine_expr(a, y, bound, hi(y), w)
            if r:
                la, ha = max(la, r[0]), min(ha, r[1])
            r = refine_expr(b, y, lo(y), bound - 1, w)
            if r:
                lb, hb = max(lb, r[0]), min(hb, r[1])
        l, h = min(la, lb), max(ha, hb)
    return raw("ite", w, (c, a, b), l, h)


def refine_expr(e, x, l, h, w):
    """interval of e = x + const given x in [l,h]"""
    if isc(e) or l > h:
        return None
    if e is x:
        return l, h
    if e.op == "add" and isc(e.a[1]) and e.a[0] is x:
        k = e.a[1]
        M = 1 << w
        if l + k >= M:
            return l + k - M, h + k - M
        if h + k < M:
            return l + k, h + k
    if e.op == "sub" and isc(e.a[0]) and e.a[1] is x:
        k = e.a[0]
        if k >= h:
            return k - h, k - l
    if e.op == "trunc" or e.op == "zext":
        if e.a[0] is x and h <= mask(min(e.w, e.extra)):
            return l, h
    return None


# ---------------------------------------------------------------- predicates
NORM = None         # normal form of xors (uf.difference), where a harness asks for it


def eq(a, b, w):
    if isc(a) and isc(b):
        return int(a == b)
    if a is b:
        return 1
    if NORM and not isc(a) and not isc(b):
        r = NORM(a, b, w)
        if r is not None:
            return int(r == 0)
    if isc(a):
        a, b = b, a
    if hi(a) < lo(b) or hi(b) < lo(a):
        return 0
    if isc(b) and a.op == "fbitsof" and w == 64:
        c = struct.unpack("<d", struct.pack("<Q", b))[0]
        if c != 0 and c == c or b == 0 and f_dyad(a.a[0]) is not None:
            return f_cmp("oeq", a.a[0], c)
    if w == 1:
        if isc(b):
            return a if b else not_(a)
        return not_(xor1(a, b))
    if a.op == "ffp" or (not isc(b) and b.op == "ffp"):
        r = FFEQ(a, b)
        if r is not None:
            return r
    if isc(b):
        if a.op == "zext":
            return eq(a.a[0], b, a.extra) if b <= mask(a.extra) else 0
        if a.op == "ite" and isc(a.a[1]) and isc(a.a[2]):
            return ite(a.a[0], int(a.a[1] == b), int(a.a[2] == b), 1)
        if a.op == "ite" and (isc(a.a[1]) or isc(a.a[2])):
            return ite(a.a[0], eq(a.a[1], b, w), eq(a.a[2], b, w), 1)
        if a.op == "add" and isc(a.a[1]):
            return eq(a.a[0], (b - a.a[1]) & mask(w), w)
        if a.op == "mul" and isc(a.a[1]) and a.a[1] & 1:
            return eq(a.a[0], b * pow(a.a[1], -1, 1 << w) & mask(w), w)
        if a.op == "trunc" and a.a[0].op == "mul" and isc(a.a[0].a[1]) and a.a[0].a[1] & 1:
            return eq(trunc(a.a[0].a[0], a.extra, w), b * pow(a.a[0].a[1], -1, 1 << w) & mask(w), w)
        z = low_zero_bits(a)
        if z and b & mask(min(z, w)):
            return 0
        if b & ~known_bits_max(a, w):
            return 0
    else:
        if a.op == "zext" and b.op == "zext" and a.extra == b.extra:
            return eq(a.a[0], b.a[0], a.extra)
        if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
            return ite(a.a[0], eq(a.a[1], b.a[1], w), eq(a.a[2], b.a[2], w), 1)
        if a.id > b.id:
            a, b = b, a
    return raw("eq", 1, (a, b), 0, 1, w)


def xor1(a, b):
    if a.id > b.id:
        a, b = b, a
    return raw("xor", 1, (a, b), 0, 1)


def ne(a, b, w):
    return not_(eq(a, b, w))


def ult(a, b, w):
    if isc(a) and isc(b):
        return int(a < b)
    if a is b:
        return 0
    if hi(a) < lo(b):
        return 1
    if lo(a) >= hi(b):
        return 0
    if isc(b) and not isc(a):
        if b == 1:
            return eq(a, 0, w)
        if a.op == "zext":
            return ult(a.a[0], b, a.extra)
        if b == hi(a):
            return ne(a, b, w)
    if isc(a) and not isc(b):
        if b.op == "zext":
            return ult(a, b.a[0], b.extra)
        if a == 0:
            return ne(b, 0, w)
    if not isc(a) and a.op == "add" and a.w == w and not isc(b) and hi(a.a[0]) + hi(a.a[1]) <= mask(w) and (b is a.a[0] or b is a.a[1]):
        return 0
    if not isc(a) and a.op == "add" and a.lo == 0 and a.hi == mask(w) and a.w == w:
        # (x + y mod 2^w) < x: the carry
        x, y = a.a
        if b is x or b is y or (isc(b) and (b == y or b == x)):
            if hi(x) + hi(y) <= mask(w):
                return 0
            return ult(mask(w), add(zext(x, w, w + 1), zext(y, w, w + 1), w + 1), w + 1)
    return raw("ult", 1, (a, b), 0, 1, w)


def ule(a, b, w):
    if isc(a) and isc(b):
        return int(a <= b)
    if isc(b) and not isc(a):
        return ult(a, b + 1, w) if b < mask(w) else 1
    if isc(a) and not isc(b):
        return ult(a - 1, b, w) if a > 0 else 1
    if a is b:
        return 1
    if hi(a) <= lo(b):
        return 1
    if lo(a) > hi(b):
        return 0
    return raw("ule", 1, (a, b), 0, 1, w)


def slt(a, b, w):
    H = 1 << (w - 1)
    if isc(a) and isc(b):
        return int(tosigned(a, w) < tosigned(b, w))
    if a is b:
        return 0
    if hi(a) < H and hi(b) < H:
        return ult(a, b, w)
    if lo(a) >= H and lo(b) >= H:
        return ult(a, b, w)
    if lo(a) >= H and hi(b) < H:
        return 1
    if hi(a) < H and lo(b) >= H:
        return 0
    if isc(b) and b == 0:
        return raw("ult", 1, (H - 1, a), 0, 1, w)  # sign bit set
    if isc(a) and a == mask(w):  # -1 < b  <=> b >= 0
        return raw("ult", 1, (b, H), 0, 1, w)
    return raw("slt", 1, (a, b), 0, 1, w)


def sle(a, b, w):
    if isc(a) and isc(b):
        return int(tosigned(a, w) <= tosigned(b, w))
    if a is b:
        return 1
    H = 1 << (w - 1)
    if hi(a) < H and hi(b) < H:
        return ule(a, b, w)
    if lo(a) >= H and lo(b) >= H:
        return ule(a, b, w)
    if lo(a) >= H and hi(b) < H:
        return 1
    if hi(a) < H and lo(b) >= H:
        return 0
    return raw("sle", 1, (a, b), 0, 1, w)


def uf(name, args, w):
    return raw("uf", w, tuple(args), 0, mask(w), name)


# ---------------------------------------------------------------- doubles
def subst(t, m, cache):
    """replaces subterms (by id); intervals of the original terms stay valid facts"""
    if isc(t) or isinstance(t, float):
        return t
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        if x.id in m:
            cache[x.id] = m[x.id]
            stack.pop()
            continue
        todo = [y for y in x.a if isinstance(y, T) and y.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if all(not isinstance(y, T) or cache[y.id] is y for y in x.a):
            cache[x.id] = x
        elif isinstance(x, F) or x.op == "ffp":
            return None
        else:
            cache[x.id] = raw(x.op, x.w, tuple(cache[y.id] if isinstance(y, T) else y for y in x.a), x.lo, x.hi, x.extra)
    return cache[t.id]


class F(T):
    """double-valued term; lo/hi are float bounds"""
    __slots__ = ()


def isf(x):
    return isinstance(x, float)


def flo(x):
    return x if isf(x) else x.lo


def fhi(x):
    return x if isf(x) else x.hi


def fraw(op, args, l, h, extra=None):
    key = ("F" + op, tuple(x.id if isinstance(x, T) else ("c", x) for x in args), extra)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.w, t.a, t.lo, t.hi, t.extra = "F" + op, FLOAT, tuple(args), l, h, extra
    t.id = _next[0]
    _next[0] += 1
    _table[key] = t
    return t


def up(x):
    return math.nextafter(x, math.inf)


def dn(x):
    return math.nextafter(x, -math.inf)


def f_from_uint(a, w):
    if isc(a):
        return float(a)
    if a.hi < 1 << 53:  # exact
        return fraw("ofint", (a,), float(a.lo), float(a.hi), w)
    return fraw("ofint", (a,), dn(float(a.lo)) if a.lo else 0.0, up(float(a.hi)), w)


def pow2exp(c):
    """k with c == 2^k, |k| <= 200, or None"""
    if not isf(c) or not c > 0 or math.isinf(c):
        return None
    m, e = math.frexp(c)
    return e - 1 if m == 0.5 and abs(e) <= 200 else None


def f_dyad(t):
    """(x, width, k) with t == x * 2^k exactly, x a bit-vector below 2^53"""
    if isf(t):
        return None
    if t.op == "Fofint" and t.a[0].hi < 1 << 53:
        return t.a[0], t.extra, 0
    if t.op == "Fmul" and isf(t.a[1]) and not isf(t.a[0]) and t.a[0].op == "Fofint" and t.a[0].a[0].hi < 1 << 53:
        k = pow2exp(t.a[1])
        return None if k is None else (t.a[0].a[0], t.a[0].extra, k)
    return None


def f_bin(op, a, b):
    if op in ("fmul", "fdiv") and not (isf(a) and isf(b)):
        if op == "fmul" and isf(a):
            a, b = b, a
        k, d = pow2exp(b), f_dyad(a)
        if k is not None and d is not None:
            k = d[2] + (k if op == "fmul" else -k)
            if abs(k) <= 400:
                t = f_from_uint(d[0], d[1])
                return t if k == 0 else fraw("mul", (t, 2.0 ** k), t.lo * 2.0 ** k, t.hi * 2.0 ** k)
    if isf(a) and isf(b):
        try:
            return {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[op]()
        except ZeroDivisionError:
            if a == 0 or a != a:
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, b)
    al, ah, bl, bh = flo(a), fhi(a), flo(b), fhi(b)
    if op == "fadd":
        l, h = al + bl, ah + bh
    elif op == "fsub":
        l, h = al - bh, ah - bl
    elif op == "fmul":
        c = [al * bl, al * bh, ah * bl, ah * bh]
        l, h = min(c), max(c)
    else:
        if bl <= 0 <= bh:
            l, h = -math.inf, math.inf
        else:
            c = [al / bl, al / bh, ah / bl, ah / bh]
            l, h = min(c), max(c)
    if not (math.isfinite(l) and math.isfinite(h)):
        l, h = -math.inf, math.inf
    l = 0.0 if l == 0 else dn(l)
    h = 0.0 if h == 0 else up(h)
    return fraw(op[1:], (a, b), l, h)


def f_round(a, kind="round"):
    if isf(a):
        if a != a or math.isinf(a):
            return a
        if kind == "round":
            r = math.floor(abs(a))
            if abs(a) - r >= 0.5:
                r += 1
            return math.copysign(float(r), a)
        if kind == "floor":
            return float(math.floor(a))
        if kind == "ceil":
            return float(math.ceil(a))
        if kind == "trunc":
            return float(math.trunc(a))
        if kind in ("rint", "nearbyint", "roundeven"):
            return float(round(a))
    d = f_dyad(a)
    if d is not None and kind in ("round", "floor", "trunc"):
        x, w, k = d
        if k >= 0:
            return a
        x = zext(x, w, 64) if w < 64 else x
        if k < -54:
            return 0.0
        if kind == "round":
            x = add(x, 1 << (-k - 1), 64)
        return f_from_uint(lshr(x, -k, 64), 64)
    l, h = flo(a), fhi(a)
    return fraw(kind, (a,), math.floor(l) * 1.0 if math.isfinite(l) else -math.inf, math.ceil(h) * 1.0 if math.isfinite(h) else math.inf)


def f_neg(a):
    if isf(a):
        return -a
    return fraw("neg", (a,), -a.hi, -a.lo)


def f_abs(a):
    if isf(a):
        return abs(a)
    if a.lo >= 0:
        return a
    return fraw("abs", (a,), 0.0, max(abs(a.lo), abs(a.hi)))


def f_toint(a, w, signed, sat):
    M = mask(w)
    if isf(a):
        if a != a:
            return 0
        if math.isinf(a):
            v = (M >> 1 if signed else M) if a > 0 else (-(1 << (w - 1)) if signed else 0)
            return v & M
        v = math.trunc(a)
        l, h = (-(1 << (w - 1)), M >> 1) if signed else (0, M)
        return max(l, min(h, v)) & M
    d = f_dyad(a)
    if d is not None and d[2] <= 0:
        x, xw, k = d
        x = zext(x, xw, 64) if xw < 64 else x
        x = 0 if k < -63 else lshr(x, -k, 64)
        if (x if isc(x) else x.hi) <= (M >> 1 if signed else M):
            return trunc(x, 64, w) if w < 64 else x
    l, h = a.lo, a.hi
    if not (math.isfinite(l) and math.isfinite(h)):
        l, h = -math.inf, math.inf
    if not signed and l > -1.0 and h < float(M):
        return raw("ftoint", w, (a,), max(0, math.trunc(l)), min(M, math.trunc(h)), "u")
    return raw("ftoint", w, (a,), 0, M, "s" if signed else "u")


def f_cmp(pred, a, b):
    if isf(a) and isf(b):
        un = a != a or b != b
        d = {"oeq": a == b, "ogt": a > b, "oge": a >= b, "olt": a < b, "ole": a <= b, "one": a != b and not un,
             "ord": not un, "uno": un, "ueq": un or a == b, "ugt": un or a > b, "uge": un or a >= b, "ult": un or a < b,
             "ule": un or a <= b, "une": a != b, "true": True, "false": False}
        return int(d[pred])
    # a symbolic double with finite bounds is finite; any other may be infinite or a NaN
    fin = lambda x: math.isfinite(x) if isf(x) else math.isfinite(x.lo) and math.isfinite(x.hi)
    if not (fin(a) and fin(b)):
        return raw("fcmp", 1, (a, b), 0, 1, pred)
    if pred == "ord":
        return 1
    if pred == "uno":
        return 0
    p = pred[1:]
    al, ah, bl, bh = flo(a), fhi(a), flo(b), fhi(b)
    if p == "lt":
        if ah < bl:
            return 1
        if al >= bh:
            return 0
    elif p == "le":
        if ah <= bl:
            return 1
        if al > bh:
            return 0
    elif p == "gt":
        return f_cmp("olt", b, a)
    elif p == "ge":
        return f_cmp("ole", b, a)
    elif p == "ne":
        return not_(f_cmp("oeq", a, b))
    elif p == "eq":
        if ah < bl or bh < al:
            return 0
    return raw("fcmp", 1, (a, b), 0, 1, "o" + p)


# ---------------------------------------------------------------- evaluation
def evaluate(t, env, ufs=None, cache=None):
    """exact value of t under env: {var name: int}"""
    if isc(t):
        return t
    if cache is None:
        cache = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        todo = [y for y in x.a if isinstance(y, T) and y.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        a = [cache[y.id] if isinstance(y, T) else y for y in x.a]
        cache[x.id] = _ev(x, a, env, ufs)
        stack.pop()
    return cache[t.id]


def _ev(x, a, env, ufs):
    op, w, e = x.op, x.w, x.extra
    if op == "var":
        return env.get(e, 0) & mask(w)
    if op == "uf":
        return ufs(e, a, w)
    if op == "ffp":
        return FFEV(x, a)
    if op == "add":
        return add(a[0], a[1], w)
    if op == "sub":
        return (a[0] - a[1]) & mask(w)
    if op == "mul":
        return mul(a[0], a[1], w)
    if op in ("udiv", "urem"):
        if a[1] == 0:
            return 0
        return a[0] // a[1] if op == "udiv" else a[0] % a[1]
    if op in ("sdiv", "srem"):
        if a[1] == 0:
            return 0
        return (sdiv if op == "sdiv" else srem)(a[0], a[1], w)
    if op == "shl":
        return shl(a[0], a[1], w)
    if op == "lshr":
        return lshr(a[0], a[1], w)
    if op == "ashr":
        return ashr(a[0], a[1], w)
    if op == "and":
        return a[0] & a[1]
    if op == "or":
        return a[0] | a[1]
    if op == "xor":
        return a[0] ^ a[1]
    if op == "not":
        return a[0] ^ 1
    if op == "zext":
        return a[0]
    if op == "sext":
        return tosigned(a[0], e) & mask(w)
    if op == "trunc":
        return a[0] & mask(w)
    if op == "concat":
        return (a[0] << e) | a[1]
    if op in ("ite", "Fite"):
        return a[1] if a[0] else a[2]
    if op == "eq":
        return int(a[0] == a[1])
    if op == "ult":
        return int(a[0] < a[1])
    if op == "ule":
        return int(a[0] <= a[1])
    if op == "slt":
        return slt(a[0], a[1], e)
    if op == "sle":
        return sle(a[0], a[1], e)
    if op == "Fofint":
        return float(a[0])
    if op in ("Fadd", "Fsub", "Fmul", "Fdiv"):
        return f_bin("f" + op[1:], a[0], a[1])
    if op in ("Fround", "Ffloor", "Fceil", "Ftrunc", "Frint", "Froundeven", "Fnearbyint"):
        return f_round(a[0], op[1:])
    if op == "Fneg":
        return -a[0]
    if op == "Fabs":
        return abs(a[0])
    if op == "ftoint":
        return f_toint(a[0], w, e == "s", True)
    if op == "fcmp":
        return f_cmp(e, a[0], a[1])
    if op == "Fbits":
        return struct.unpack("<d", struct.pack("<Q", a[0]))[0]
    if op == "fbitsof":
        return struct.unpack("<Q", struct.pack("<d", a[0]))[0]
    raise NotImplementedError(op)
