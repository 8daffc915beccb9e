"""Hash-consed bit-vector expression layer.

Values are Python ints (constants, always already reduced mod 2**w) or E nodes.
Every constructor takes the operand width explicitly because ints carry none.
Width-1 values double as booleans.
"""
import itertools

_tab = {}
_ids = itertools.count(1)


class E(object):
    __slots__ = ('op', 'w', 'a', 'id', 'kz', 'ko', 'lo', 'hi', 'z', '__weakref__')

    def __repr__(self):
        return show(self, 4)


class Arr(object):
    """symbolic array: 64-bit index -> ew-bit element"""
    __slots__ = ('name', 'ew', 'z', 'id')

    def __init__(self, name, ew):
        self.name = name
        self.ew = ew
        self.z = None
        self.id = next(_ids)

    def __repr__(self):
        return 'arr:' + self.name


_arrs = {}


def arr(name, ew):
    k = (name, ew)
    r = _arrs.get(k)
    if r is None:
        r = _arrs[k] = Arr(name, ew)
    return r


def show(e, d):
    if type(e) is int:
        return hex(e)
    if not isinstance(e, E):
        return repr(e)
    if e.op == 'var':
        return '%s:%d' % (e.a[0], e.w)
    if d == 0:
        return '#%d' % e.id
    if e.op == 'lin':
        s = [hex(e.a[0])] if e.a[0] else []
        for t, c in e.a[1]:
            s.append((hex(c) + '*' if c != 1 else '') + show(t, d - 1))
        return '(' + ' + '.join(s) + '):%d' % e.w
    if e.op == 'cat':
        return 'cat:%d(' % e.w + ','.join('%d:%s' % (w, show(v, d - 1)) for w, v in reversed(e.a)) + ')'
    return '%s:%d(%s)' % (e.op, e.w, ','.join(show(x, d - 1) for x in e.a))


def mask(w):
    return (1 << w) - 1


def tz(x, w):
    if x == 0:
        return w
    return (x & -x).bit_length() - 1


def mk(op, w, a):
    k = (op, w, a)
    e = _tab.get(k)
    if e is not None:
        return e
    e = E()
    e.op = op
    e.w = w
    e.a = a
    e.id = next(_ids)
    e.z = None
    _bits(e)
    m = mask(w)
    if e.kz | e.ko == m and op != 'var':
        _tab[k] = e.ko
        return e.ko
    if e.lo == e.hi and op != 'var':
        _tab[k] = e.lo
        return e.lo
    _tab[k] = e
    return e


def kb(x, w):
    if type(x) is int:
        return (~x) & mask(w), x
    return x.kz, x.ko


def lo_hi(x):
    if type(x) is int:
        return x, x
    return x.lo, x.hi


def _bits(e):
    w = e.w
    m = mask(w)
    op = e.op
    a = e.a
    kz = ko = 0
    lo = 0
    hi = m
    if op == 'cat':
        p = 0
        for pw, v in a:
            z, o = kb(v, pw)
            kz |= z << p
            ko |= o << p
            p += pw
        if len(a) == 2 and type(a[1][1]) is int and a[1][1] == 0:
            lo, hi = lo_hi(a[0][1])
        elif type(a[-1][1]) is int or True:
            top = a[-1][1]
            l, h = lo_hi(top)
            sh = w - a[-1][0]
            lo = l << sh
            hi = (h << sh) | mask(sh)
            if len(a) == 3 and a[2][1] == 0 and a[0][1] == 0:
                l, h = lo_hi(a[1][1])
                lo = l << a[0][0]
                hi = h << a[0][0]
    elif op == 'and':
        kz = (~a[0]) & m
        ko = a[0]
        hi = a[0]
        for t in a[1:]:
            z, o = kb(t, w)
            kz |= z
            ko &= o
            hi = min(hi, t.hi)
    elif op == 'or':
        ko = a[0]
        kz = (~a[0]) & m
        lo = a[0]
        for t in a[1:]:
            z, o = kb(t, w)
            ko |= o
            kz &= z
            lo = max(lo, t.lo)
    elif op == 'xor':
        kz, ko = kb(a[0], w)
        for t in a[1:]:
            z, o = kb(t, w)
            kz, ko = (kz & z) | (ko & o), (kz & o) | (ko & z)
    elif op == 'lin':
        c = a[0]
        t = w
        l = h = c
        okk = True
        for x, k in a[1]:
            xz = x.kz
            tzx = tz((~xz) & m, w)
            t = min(t, tz(k, w) + tzx)
            l += x.lo * k
            h += x.hi * k
        if h <= m:
            lo, hi = l, h
        if t > 0:
            t = min(t, w)
            lm = mask(t)
            ko |= c & lm
            kz |= (~c) & lm
    elif op == 'ite':
        z1, o1 = kb(a[1], w)
        z2, o2 = kb(a[2], w)
        kz = z1 & z2
        ko = o1 & o2
        l1, h1 = lo_hi(a[1])
        l2, h2 = lo_hi(a[2])
        lo = min(l1, l2)
        hi = max(h1, h2)
    elif op == 'sext':
        x = a[0]
        z, o = x.kz, x.ko
        iw = x.w
        top = m & ~mask(iw)
        kz = z
        ko = o
        if (z >> (iw - 1)) & 1:
            kz |= top
        elif (o >> (iw - 1)) & 1:
            ko |= top
    elif op == 'mul':
        tzs = 0
        h = 1
        l = 1
        for t in a:
            z, o = kb(t, w)
            tzs += tz((~z) & m, w)
            x, y = lo_hi(t)
            h *= y
            l *= x
        tzs = min(tzs, w)
        kz = mask(tzs)
        if h <= m:
            lo, hi = l, h
    elif op == 'udiv':
        l1, h1 = lo_hi(a[0])
        l2, h2 = lo_hi(a[1])
        if l2 > 0:
            hi = h1 // l2
            lo = l1 // h2
    elif op == 'urem':
        l1, h1 = lo_hi(a[0])
        l2, h2 = lo_hi(a[1])
        if l2 > 0:
            hi = min(h1, h2 - 1)
        else:
            hi = h1 if h1 > 0 else m
            hi = max(h1, 0)
    elif op == 'lshr':
        l1, h1 = lo_hi(a[0])
        l2, h2 = lo_hi(a[1])
        hi = h1 >> min(l2, w)
        lo = l1 >> min(h2, w + 1)
    elif op == 'shl':
        z, o = kb(a[0], w)
        l2, h2 = lo_hi(a[1])
        t = min(w, tz((~z) & m, w) + min(l2, w))
        kz = mask(t)
        if type(a[0]) is int or True:
            h1 = lo_hi(a[0])[1]
            if h2 < w and (h1 << h2) <= m:
                hi = h1 << h2
                lo = lo_hi(a[0])[0] << min(l2, w)
    elif op == 'def':
        kz, ko, lo, hi = a[0].kz, a[0].ko, a[0].lo, a[0].hi
    elif op == 'ctpop' or op == 'ctlz' or op == 'cttz':
        hi = a[0].w
        hi = min(hi, m)
    elif op == 'var' or op == 'sel':
        pass
    # combine
    hb = hi.bit_length()
    kz |= m & ~mask(hb)
    if lo < ko:
        lo = ko
    mx = m & ~kz
    if hi > mx:
        hi = mx
    e.kz = kz
    e.ko = ko
    e.lo = lo
    e.hi = hi


def var(name, w):
    return mk('var', w, (name,))


def sel(ar, idx):
    return mk('sel', ar.ew, (ar, idx))


# ---------------------------------------------------------------- cat/ext
def cat(parts):
    """parts: list of (w, v), LSB first"""
    out = []
    for w, v in parts:
        if w == 0:
            continue
        if type(v) is not int and v.op == 'cat':
            sub = v.a
        else:
            sub = ((w, v),)
        for sw, sv in sub:
            if out:
                pw, pv = out[-1]
                if type(sv) is int:
                    if type(pv) is int:
                        out[-1] = (pw + sw, pv | (sv << pw))
                        continue
                elif type(pv) is not int:
                    # merge adjacent extracts of same base
                    j = _adj(pw, pv, sw, sv)
                    if j is not None:
                        out[-1] = (pw + sw, j)
                        continue
            out.append((sw, sv))
    if len(out) == 1:
        return out[0][1]
    # sext recognition is left to the producers
    w = sum(p[0] for p in out)
    return mk('cat', w, tuple(out))


def subst(e, rep):
    """replace subterms (looking through sums, concatenations and extracts only) by their representatives"""
    if type(e) is int:
        return e
    r = rep.get(e)
    if r is not None:
        while type(r) is not int:
            n = rep.get(r)
            if n is None:
                break
            r = n
        return r
    if e.op == 'lin':
        ch = False
        acc = e.a[0]
        for t, k in e.a[1]:
            n = subst(t, rep)
            ch = ch or n is not t
            acc = add(e.w, acc, mul(e.w, n, k)) if k != 1 else add(e.w, acc, n)
        return acc if ch else e
    if e.op == 'cat':
        ch = False
        ps = []
        for w, v in e.a:
            n = subst(v, rep) if type(v) is not int else v
            ch = ch or n is not v
            ps.append((w, n))
        return cat(ps) if ch else e
    if e.op == 'ext' and len(rep) and e.a[0].op in ('lin', 'cat'):
        n = subst(e.a[0], rep)
        return ext(n, e.a[0].w, e.a[1], e.w) if n is not e.a[0] else e
    return e


def _adj(pw, pv, sw, sv):
    # pv low part, sv high part
    if sv.op == 'ext':
        b, l = sv.a
        if pv.op == 'ext':
            if pv.a[0] is b and pv.a[1] + pw == l:
                return ext(b, b.w, pv.a[1], pw + sw)
        # low part of b pushed through: ext(b,0,pw) might be structurally different (lin,and..)
        if l == pw:
            if ext(b, b.w, 0, pw) is pv:
                return ext(b, b.w, 0, pw + sw)
    if sv.op == 'sel' or pv.op == 'sel':
        return None
    return None


def ext(x, xw, lo, n):
    if n == xw:
        return x
    if type(x) is int:
        return (x >> lo) & mask(n)
    z = (x.kz >> lo) & mask(n)
    o = (x.ko >> lo) & mask(n)
    if z | o == mask(n):
        return o
    op = x.op
    if op == 'cat':
        out = []
        p = 0
        hi = lo + n
        for w, v in x.a:
            s = max(p, lo)
            t = min(p + w, hi)
            if s < t:
                out.append((t - s, ext(v, w, s - p, t - s)))
            p += w
            if p >= hi:
                break
        return cat(out)
    if op == 'ext':
        return ext(x.a[0], x.a[0].w, x.a[1] + lo, n)
    if op == 'sext':
        y = x.a[0]
        if lo + n <= y.w:
            return ext(y, y.w, lo, n)
        if lo >= y.w:
            s = ext(y, y.w, y.w - 1, 1)
            return sext(s, 1, n)
        return sext(ext(y, y.w, lo, y.w - lo), y.w - lo, n)
    k = (x, lo, n)
    r = _extc.get(k)
    if r is not None:
        return r
    if op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor}[op]
        r = (x.a[0] >> lo) & mask(n)
        for t in x.a[1:]:
            r = f(n, r, ext(t, xw, lo, n))
    elif op == 'ite':
        r = ite(x.a[0], ext(x.a[1], xw, lo, n), ext(x.a[2], xw, lo, n), n)
    elif op == 'lin' and lo == 0:
        m = mask(n)
        r = x.a[0] & m
        r = _lin(n, r, [(ext(t, xw, 0, n), k2 & m) for t, k2 in x.a[1]])
    elif op == 'lin' and _linhi(x, lo):
        m = mask(lo)
        hi, rest = (x.a[0] >> lo) & mask(n), []
        for t, c in x.a[1]:
            if t.kz & m == m:
                hi = add(n, hi, mul(n, c & mask(n), ext(t, xw, lo, n)))
            elif c & m == 0:
                hi = add(n, hi, mul(n, (c >> lo) & mask(n), ext(t, xw, 0, n)))
            else:
                rest.append((t, c))
        if rest:
            hi = add(n, hi, ext(_lin(xw, x.a[0] & m, rest), xw, lo, n))
        r = hi
    elif op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == mask(xw) and lo == xw - n:
        t = x.a[1][0][0]
        r = add(n, not_(n, ext(t, xw, lo, n)), zext(eq(ext(t, xw, 0, lo), 0, lo), 1, n))
    elif lo == 0 and (op == 'sdiv' and _sw(x.a[0], x.a[1], xw) <= n or op == 'udiv' and _uw(x.a[0], x.a[1]) <= n):
        r = (sdiv if op == 'sdiv' else udiv)(n, ext(x.a[0], xw, 0, n), ext(x.a[1], xw, 0, n))
    elif op == 'mul' and lo == 0:
        r = mul(n, ext(x.a[0], xw, 0, n), ext(x.a[1], xw, 0, n))
    elif op == 'shl' and lo == 0 and type(x.a[1]) is not int and x.a[1].hi < n:
        r = shl(n, ext(x.a[0], xw, 0, n), ext(x.a[1], xw, 0, n))
    elif op == 'lin' and lo + n > x.hi.bit_length():
        # drop known-zero top
        hb = x.hi.bit_length()
        if hb > lo and hb < lo + n:
            r = cat([(hb - lo, ext(x, xw, lo, hb - lo)), (n - (hb - lo), 0)])
        else:
            r = mk('ext', n, (x, lo))
    else:
        # split known-zero high
        zz = mask(n) & ~z
        hb = zz.bit_length()
        if hb < n and hb > 0:
            r = cat([(hb, ext(x, xw, lo, hb)), (n - hb, 0)])
        else:
            lb = tz(zz, n)
            if 0 < lb < n:
                r = cat([(lb, 0), (n - lb, ext(x, xw, lo + lb, n - lb))])
            else:
                r = mk('ext', n, (x, lo))
    _extc[k] = r
    return r


_extc = {}


def _linhi(x, lo):
    m = mask(lo)
    return x.w == 128 and lo >= 32 and any(t.kz & m == m or c & m == 0 for t, c in x.a[1])


def trunc(x, f, t):
    return ext(x, f, 0, t)


def zext(x, f, t):
    if f == t or type(x) is int:
        return x
    if x.op == 'lin':
        # push through when no overflow possible
        h = x.a[0]
        for y, k in x.a[1]:
            h += y.hi * k
        if h <= mask(f):
            return _lin(t, x.a[0], [(zext(y, f, t), k) for y, k in x.a[1]])
    if x.op == 'ite' and (type(x.a[1]) is int or type(x.a[2]) is int):
        return ite(x.a[0], zext(x.a[1], f, t), zext(x.a[2], f, t), t)
    return cat([(f, x), (t - f, 0)])


def sext(x, f, t):
    if f == t:
        return x
    if type(x) is int:
        if x >> (f - 1):
            return x | (mask(t) & ~mask(f))
        return x
    s = 1 << (f - 1)
    if x.kz & s:
        return zext(x, f, t)
    if x.op == 'sext':
        return sext(x.a[0], x.a[0].w, t)
    if x.ko & s:
        return cat([(f, x), (t - f, mask(t - f))])
    if x.op == 'ite' and (type(x.a[1]) is int or type(x.a[2]) is int):
        return ite(x.a[0], sext(x.a[1], f, t), sext(x.a[2], f, t), t)
    if f == 1:
        return ite(x, mask(t), 0, t)
    if x.op == 'cat':
        w, v = x.a[-1]
        if w < f and type(v) is not int:
            return cat(list(x.a[:-1]) + [(t - f + w, sext(v, w, t - f + w))])
    return mk('sext', t, (x,))


# ---------------------------------------------------------------- linear arithmetic
def _terms(x):
    if type(x) is int:
        return x, ()
    if x.op == 'lin':
        return x.a
    return 0, ((x, 1),)


def _lin(w, c, terms):
    m = mask(w)
    acc = {}
    c &= m
    for t, k in terms:
        if type(t) is int:
            c = (c + t * k) & m
            continue
        if t.op == 'lin':
            c = (c + t.a[0] * k) & m
            for t2, k2 in t.a[1]:
                acc[t2] = (acc.get(t2, 0) + k * k2) & m
        elif t.op == 'xor' and t.a[0] == m and w > 1 and len(t.a) == 2 and len(terms) > 1:
            # not(x) = -x-1
            c = (c - k) & m
            acc[t.a[1]] = (acc.get(t.a[1], 0) - k) & m
        else:
            acc[t] = (acc.get(t, 0) + k) & m
    lst = [(t, k) for t, k in acc.items() if k]
    if not lst:
        return c
    if len(lst) == 1:
        t, k = lst[0]
        if c == 0:
            if k == 1:
                return t
            if k & (k - 1) == 0:
                return shl(w, t, k.bit_length() - 1)
        # not(x) = -x-1  kept as lin
    if w == 1:
        r = c
        for t, k in lst:
            r = xor(1, r, t)
        return r
    # disjoint or -> cat when single term and constant do not overlap
    if len(lst) == 1 and lst[0][1] == 1 and c and c >> 32 == 0:
        t = lst[0][0]
        if t.kz & c == c and t.op == 'cat':
            return or_(w, t, c)
    if len(lst) > 1:
        lst.sort(key=lambda p: p[0].id)
    return mk('lin', w, (c, tuple(lst)))


def add(w, a, b):
    if type(a) is int and type(b) is int:
        return (a + b) & mask(w)
    if a == 0 and type(a) is int:
        return b
    if b == 0 and type(b) is int:
        return a
    return _lin(w, 0, ((a, 1), (b, 1)))


def sub(w, a, b):
    if type(a) is int and type(b) is int:
        return (a - b) & mask(w)
    if type(b) is int and b == 0:
        return a
    return _lin(w, 0, ((a, 1), (b, mask(w))))


def neg(w, a):
    return sub(w, 0, a)


def mul(w, a, b):
    if type(a) is int and type(b) is int:
        return (a * b) & mask(w)
    if type(b) is int:
        a, b = b, a
    if type(a) is int:
        if a == 0:
            return 0
        if a == 1:
            return b
        if w == 1:
            return b
        n = b.hi.bit_length()
        if n <= 16 and 1 < bin(a).count('1') <= 4:
            # copies of a short field at several positions
            pos = [i for i in range(w) if a >> i & 1]
            if all(q - p_ >= n for p_, q in zip(pos, pos[1:])) and pos[-1] + n <= w and pos[-1] - pos[-2] >= 16:
                f = ext(b, w, 0, n)
                parts = []
                at = 0
                for p_ in pos:
                    parts.append((p_ - at, 0))
                    parts.append((n, f))
                    at = p_ + n
                parts.append((w - at, 0))
                return cat(parts)
        return _lin(w, 0, ((b, a),))
    if w == 128:
        pa, pb = _wide(a), _wide(b)
        if pa and pb and (pa[1] or pb[1] or pa[0] < 0 or pb[0] < 0):
            # s*zext(x) + 2^64*h each: unsigned product plus linear corrections
            (sa, ha, x), (sb, hb, y) = pa, pb
            u = mul(128, zext(x, 64, 128), zext(y, 64, 128))
            hi = 0
            for h, s, z in ((ha, sb, y), (hb, sa, x)):
                for cnd, k in h:
                    hi = add(64, hi, ite(cnd, mul(64, (k * s) & mask(64), z), 0, 64))
            if sa * sb < 0:
                u = neg(128, u)
            # h products are multiples of 2^128
            return add(128, u, cat([(64, 0), (64, hi)]))
    # pull constant factors out of single-term lin
    if a.id > b.id:
        a, b = b, a
    return mk('mul', w, (a, b))


def _wide(a):
    """a (128 bits) as (s, [(cond, k)], x): s*zext(x) + 2^64*sum(k if cond)"""
    if a.op == 'cat' and len(a.a) == 2 and a.a[0][0] == 64 and a.a[1][1] == 0 and type(a.a[1][1]) is int:
        x, h = a.a[0][1], []
    elif a.op == 'sext' and a.a[0].w == 64:
        x = a.a[0]
        h = [(ext(x, 64, 63, 1), -1)]
    else:
        return None
    if type(x) is int:
        return None
    if x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == mask(64):
        y = x.a[1][0][0]
        return -1, h + [(ne(y, 0, 64), 1)], y
    return 1, h, x


def _bigconst(w, x):
    return type(x) is int


def udiv(w, a, b):
    if type(b) is int:
        if type(a) is int and b:
            return a // b
        if b == 0:
            return mask(w)
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
    return mk('udiv', w, (a, b))


def urem(w, a, b):
    if type(b) is int:
        if b == 0:
            return a
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            return zext(ext(a, w, 0, k), k, w) if k else 0
        if a.hi < b:
            return a
    if w > 32 and _uw(a, b) <= 32:
        return zext(urem(32, ext(a, w, 0, 32), ext(b, w, 0, 32)), 32, w)
    return mk('urem', w, (a, b))


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(w, a, b):
    if type(a) is int and type(b) is int:
        if b == 0:
            return 1 if a >> (w - 1) else mask(w)
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & mask(w)
    if type(b) is int and b == 1:
        return a
    return mk('sdiv', w, (a, b))


def srem(w, a, b):
    if type(a) is int and type(b) is int:
        if b == 0:
            return a
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & mask(w)
    k = _sw(a, b, w)
    if k <= 32 < w:
        return sext(srem(32, ext(a, w, 0, 32), ext(b, w, 0, 32)), 32, w)
    return mk('srem', w, (a, b))


def _uw(a, b):
    return max(lo_hi(a)[1].bit_length(), lo_hi(b)[1].bit_length())


# ---------------------------------------------------------------- bitwise
def _runs(c, w):
    """boundaries where constant c changes bit value"""
    x = (c ^ (c >> 1)) & mask(w - 1)
    out = []
    while x:
        l = x & -x
        out.append(l.bit_length())
        x ^= l
    return out


def _bnds(v, w, mx):
    """cut points useful for slicing v"""
    if type(v) is int:
        if w > 1:
            x = (v ^ (v >> 1)) & mask(w - 1)
            if bin(x).count('1') > mx:
                return None
        return _runs(v, w)
    if v.op == 'cat':
        out = []
        p = 0
        for pw, pv in v.a:
            if p:
                out.append(p)
            p += pw
        return out
    return []


def _slice(op, f, w, x, y):
    """piecewise evaluation if an operand has constant parts; None if no gain"""
    cx = type(x) is int
    cy = type(y) is int
    if not cx and x.op != 'cat' and not cy and y.op != 'cat':
        return None
    bx = _bnds(x, w, 10)
    if bx is None:
        return None
    by = _bnds(y, w, 10)
    if by is None:
        return None
    cuts = sorted(set(bx) | set(by))
    if not cuts or len(cuts) > 130:
        return None
    if not cx and not cy:
        # need some constant part
        if not any(type(v) is int for pw, v in (x.a if x.op == 'cat' else ())) and \
           not any(type(v) is int for pw, v in (y.a if y.op == 'cat' else ())):
            return None
    cuts.append(w)
    p = 0
    out = []
    for c in cuts:
        n = c - p
        out.append((n, f(n, ext(x, w, p, n), ext(y, w, p, n))))
        p = c
    return cat(out)


def _nary(op, w, a, b, unit, comb):
    c = unit
    ts = []
    for x in (a, b):
        if type(x) is int:
            c = comb(c, x)
        elif x.op == op:
            c = comb(c, x.a[0])
            ts.extend(x.a[1:])
        else:
            ts.append(x)
    return c, ts


def and_(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    m = mask(w)
    if type(b) is int:
        if b == 0:
            return 0
        if b == m:
            return a
        if b | a.kz == m:
            return a
        if b & ~a.kz & m == 0:
            return 0
    elif a is b:
        return a
    if w > 1:
        r = _slice('and', and_, w, a, b)
        if r is not None:
            return r
    c, ts = _nary('and', w, a, b, m, lambda x, y: x & y)
    if c == 0:
        return 0
    s = {}
    for t in ts:
        s[t.id] = t
    if w == 1:
        for t in list(s.values()):
            n = not1(t)
            if type(n) is not int and n.id in s:
                return 0
    l = [s[i] for i in sorted(s)]
    if c == m and len(l) == 1:
        return l[0]
    return mk('and', w, (c,) + tuple(l))


def or_(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    m = mask(w)
    if type(b) is int:
        if b == 0:
            return a
        if b == m:
            return m
        if b & ~a.ko & m == 0:
            return a
    elif a is b:
        return a
    if w > 1:
        r = _slice('or', or_, w, a, b)
        if r is not None:
            return r
    c, ts = _nary('or', w, a, b, 0, lambda x, y: x | y)
    if c == m:
        return m
    s = {}
    for t in ts:
        s[t.id] = t
    if w == 1:
        for t in list(s.values()):
            n = not1(t)
            if type(n) is not int and n.id in s:
                return 1
    l = [s[i] for i in sorted(s)]
    if c == 0 and len(l) == 1:
        return l[0]
    return mk('or', w, (c,) + tuple(l))


def xor(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    m = mask(w)
    if type(b) is int:
        if b == 0:
            return a
        if b == m and a.op == 'xor' and len(a.a) == 2 and a.a[0] == m:
            return a.a[1]
        if w == 1:
            return not1(a)
        if b == m and a.op == 'lin':
            return _lin(w, m, ((a, m),))
    elif a is b:
        return 0
    if w > 1:
        r = _slice('xor', xor, w, a, b)
        if r is not None:
            return r
    if type(b) is int and a.op == 'ite' and (type(a.a[1]) is int or type(a.a[2]) is int):
        return ite(a.a[0], xor(w, a.a[1], b), xor(w, a.a[2], b), w)
    c, ts = _nary('xor', w, a, b, 0, lambda x, y: x ^ y)
    s = {}
    for t in ts:
        if t.id in s:
            del s[t.id]
        else:
            s[t.id] = t
    if not s:
        return c
    l = [s[i] for i in sorted(s)]
    if c == 0 and len(l) == 1:
        return l[0]
    return mk('xor', w, (c,) + tuple(l))


def not_(w, a):
    return xor(w, a, mask(w))


_notc = {}


def not1(a):
    if type(a) is int:
        return a ^ 1
    r = _notc.get(a)
    if r is not None:
        return r
    op = a.op
    if op == 'xor':
        c, ts = a.a[0] ^ 1, a.a[1:]
        r = ts[0] if (c == 0 and len(ts) == 1) else mk('xor', 1, (c,) + ts)
    elif op == 'ult':
        r = ule(a.a[1], a.a[0], _pw(a))
    elif op == 'ule':
        r = ult(a.a[1], a.a[0], _pw(a))
    elif op == 'slt':
        r = sle(a.a[1], a.a[0], _pw(a))
    elif op == 'sle':
        r = slt(a.a[1], a.a[0], _pw(a))
    else:
        r = mk('xor', 1, (1, a))
    _notc[a] = r
    if type(r) is not int:
        _notc[r] = a
    return r


def _pw(e):
    x = e.a[0]
    return e.a[1].w if type(x) is int else x.w


def shl(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if b == 0:
            return a
        if type(a) is int:
            return (a << b) & mask(w)
        if a.op == 'lin':
            return _lin(w, 0, ((a, 1 << b),))
        return cat([(b, 0), (w - b, ext(a, w, 0, w - b))])
    if type(a) is int and a == 0:
        return 0
    return mk('shl', w, (a, b))


def lshr(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if b == 0:
            return a
        if type(a) is int:
            return a >> b
        return cat([(w - b, ext(a, w, b, w - b)), (b, 0)])
    if type(a) is int and a == 0:
        return 0
    return mk('lshr', w, (a, b))


def ashr(w, a, b):
    if type(b) is int:
        if b >= w:
            b = w - 1
        if b == 0:
            return a
        if type(a) is int:
            return (sgn(a, w) >> b) & mask(w)
        return sext(ext(a, w, b, w - b), w - b, w)
    if type(a) is int and a == 0:
        return 0
    if type(a) is not int and (a.kz >> (w - 1)) & 1:
        return lshr(w, a, b)
    return mk('ashr', w, (a, b))


# ---------------------------------------------------------------- ite / predicates
def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == 'xor' and c.a[0] == 1 and len(c.a) == 2:
        return ite(c.a[1], b, a, w)
    n = _notc.get(c)
    if n is not None and type(n) is not int and n.id < c.id:
        return ite(n, b, a, w)
    if w == 1:
        if type(a) is int:
            return or_(1, c, b) if a else and_(1, not1(c), b)
        if type(b) is int:
            return or_(1, not1(c), a) if b else and_(1, c, a)
        if a is c:
            return or_(1, c, b)
        if b is c:
            return and_(1, c, a)
    if type(a) is not int and a.op == 'ite' and a.a[0] is c:
        return ite(c, a.a[1], b, w)
    if type(b) is not int and b.op == 'ite' and b.a[0] is c:
        return ite(c, a, b.a[2], w)
    if type(b) is not int and b.op == 'ite' and _same(b.a[1], a):
        return ite(or_(1, c, b.a[0]), a, b.a[2], w)
    if type(a) is not int and a.op == 'ite' and _same(a.a[2], b):
        return ite(and_(1, c, a.a[0]), a.a[1], b, w)
    if w > 1 and (type(a) is not int and a.op == 'cat' or type(b) is not int and b.op == 'cat'):
        r = _itecat(c, a, b, w)
        if r is not None:
            return r
    if type(a) is not int and type(b) is not int and (a.op == 'xor' or b.op == 'xor'):
        # conditional xor
        ta = a.a[1:] if a.op == 'xor' else (a,)
        tb = b.a[1:] if b.op == 'xor' else (b,)
        ca = a.a[0] if a.op == 'xor' else 0
        cb = b.a[0] if b.op == 'xor' else 0
        if len(ta) != len(tb) and ca == cb:
            ba, bb = (ta, tb) if len(ta) < len(tb) else (tb, ta)
            if len(bb) == len(ba) + 1 and set(ba) <= set(bb):
                y = [t for t in bb if t not in ba][0]
                y = ite(c, y, 0, w) if bb is ta else ite(c, 0, y, w)
                return xor(w, ba[0] if len(ba) == 1 and ca == 0 else mk('xor', w, (ca,) + tuple(ba)), y)
    return mk('ite', w, (c, a, b))


def _itecat(c, a, b, w):
    """an ite whose two values share a slice"""
    bnd = set()
    for v in (a, b):
        if type(v) is not int and v.op == 'cat':
            p = 0
            for q, _ in v.a:
                p += q
                bnd.add(p)
    bl = sorted(bnd)
    if len(bl) > 70:
        return None
    parts = []
    p = 0
    hit = False
    for q in bl:
        x = ext(a, w, p, q - p)
        y = ext(b, w, p, q - p)
        if _same(x, y):
            hit = True
        parts.append((q - p, x, y))
        p = q
    if not hit and any(n != 1 for n, x, y in parts):
        return None
    return cat([(n, ite(c, x, y, n)) for n, x, y in parts])


def _same(a, b):
    if type(a) is int or type(b) is int:
        return type(a) is type(b) and a == b
    return a is b


def eq(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if type(b) is int:
        if w == 1:
            return a if b else not1(a)
        if a.kz & b or a.ko & ~b:
            return 0
        if b < a.lo or b > a.hi:
            return 0
        op = a.op
        if op == 'cat':
            r = 1
            p = 0
            for pw, v in a.a:
                r = and_(1, r, eq(v, (b >> p) & mask(pw), pw))
                p += pw
                if r == 0 and type(r) is int:
                    return 0
            return r
        if op == 'sext':
            x = a.a[0]
            lowb = b & mask(x.w)
            if sext(lowb, x.w, w) != b:
                return 0
            return eq(x, lowb, x.w)
        if op == 'lin':
            c, ts = a.a
            if len(ts) == 1:
                t, k = ts[0]
                d = (b - c) & mask(w)
                if k == 1:
                    if c:
                        return eq(t, d, w)
                elif k & 1:
                    return eq(t, (d * pow(k, -1, 1 << w)) & mask(w), w)
            elif c:
                return eq(_lin(w, 0, ts), (b - c) & mask(w), w)
        if op == 'ite':
            x, y = a.a[1], a.a[2]
            ex, ey = eq(x, b, w), eq(y, b, w)
            if type(ex) is int or type(ey) is int:
                return ite(a.a[0], ex, ey, 1)
        if op == 'xor' and a.a[0]:
            r = 0
            for t in a.a[1:]:
                r = xor(w, r, t)
            return eq(r, b ^ a.a[0], w)
        return mk('eq', 1, (a, b))
    if (a.kz & b.ko) | (a.ko & b.kz):
        return 0
    if a.lo > b.hi or b.lo > a.hi:
        return 0
    if w == 1:
        return not1(xor(1, a, b))
    if a.op == 'lin' or b.op == 'lin':
        d = _lin(w, 0, ((a, 1), (b, mask(w))))
        if type(d) is int:
            return 1 if d == 0 else 0
        if d.op == 'lin' and len(d.a[1]) == 1:
            return eq(d, 0, w)
        if d.op != 'lin':
            return eq(d, 0, w)
        if d.a[0] == 0 and len(d.a[1]) == 2:
            (x, kx), (y, ky) = d.a[1]
            if (kx == 1 and ky == mask(w)) or (ky == 1 and kx == mask(w)):
                if not (x.op == 'lin' or y.op == 'lin'):
                    return eq(x, y, w)
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return eq(a.a[0], b.a[0], a.a[0].w)
    if a.op == 'cat' and b.op == 'cat':
        cuts = set(_bnds(a, w, 99)) & set(_bnds(b, w, 99))
        if cuts:
            r = 1
            p = 0
            for c in sorted(cuts) + [w]:
                n = c - p
                r = and_(1, r, eq(ext(a, w, p, n), ext(b, w, p, n), n))
                p = c
                if type(r) is int and r == 0:
                    return 0
            return r
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], eq(a.a[1], b.a[1], w), eq(a.a[2], b.a[2], w), 1)
    if a.op == 'ite':
        ex = eq(a.a[1], b, w)
        ey = eq(a.a[2], b, w) if type(ex) is int else None
        if type(ex) is int and type(ey) is int:
            return ite(a.a[0], ex, ey, 1)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 1, (a, b))


def ne(a, b, w):
    return not1(eq(a, b, w))


def _strip(a, b, w):
    """common number of high bits known zero in both"""
    za = kb(a, w)[0]
    zb = kb(b, w)[0]
    m = mask(w)
    return ((~(za & zb)) & m).bit_length()


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    la, ha = lo_hi(a)
    lb, hb = lo_hi(b)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    if a is b:
        return 0
    if type(b) is int and b == la + 1:
        return eq(a, la, w)
    if type(a) is int and a == hb - 1:
        return eq(b, hb, w)
    if type(a) is int and a == lb:
        return ne(b, lb, w)
    if type(b) is int and b == ha:
        return ne(a, ha, w)
    n = _strip(a, b, w)
    if n < w and n > 0:
        a, b = ext(a, w, 0, n), ext(b, w, 0, n)
        return ult(a, b, n)
    # strip identical constant low bits / aligned comparisons against constants
    if type(b) is int and a.op == 'cat' and a.a[0][1] == 0:
        k = a.a[0][0]
        # a = x<<k ; a < b  <=>  x < ceil(b / 2^k)
        c = (b + mask(k)) >> k
        return ult(ext(a, w, k, w - k), c, w - k)
    if type(a) is int and b.op == 'cat' and b.a[0][1] == 0:
        k = b.a[0][0]
        return ult(a >> k, ext(b, w, k, w - k), w - k)
    if w == 1:
        return and_(1, not1(a), b)
    if type(b) is int and a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
        return ite(a.a[0], ult(a.a[1], b, w), ult(a.a[2], b, w), 1)
    if type(b) is int and b & (b - 1) == 0:
        k = b.bit_length() - 1
        return eq(ext(a, w, k, w - k), 0, w - k)
    return mk('ult', 1, (a, b))


def ule(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a <= b else 0
    la, ha = lo_hi(a)
    lb, hb = lo_hi(b)
    if ha <= lb:
        return 1
    if la > hb:
        return 0
    if a is b:
        return 1
    if type(a) is int:
        if a == 0:
            return 1
        return ult(a - 1, b, w)
    if type(b) is int:
        if b == mask(w):
            return 1
        return ult(a, b + 1, w)
    n = _strip(a, b, w)
    if n < w and n > 0:
        return ule(ext(a, w, 0, n), ext(b, w, 0, n), n)
    if w == 1:
        return or_(1, not1(a), b)
    return mk('ule', 1, (a, b))


def slt(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if sgn(a, w) < sgn(b, w) else 0
    if a is b:
        return 0
    za, oa = kb(a, w)
    zb, ob = kb(b, w)
    s = 1 << (w - 1)
    if (za & s and zb & s) or (oa & s and ob & s):
        return ult(a, b, w)
    if za & s and ob & s:
        return 0
    if oa & s and zb & s:
        return 1
    if type(b) is int and b == 0:
        return ext(a, w, w - 1, 1)
    if type(a) is int and a == mask(w):
        return not1(ext(b, w, w - 1, 1))
    if w == 1:
        return and_(1, a, not1(b))
    n = _sw(a, b, w)
    if n < w:
        return slt(ext(a, w, 0, n), ext(b, w, 0, n), n)
    return mk('slt', 1, (a, b))


def _sigw(a, w):
    """smallest n such that a is sign extension of its low n bits"""
    if type(a) is int:
        v = sgn(a, w)
        return (v if v >= 0 else ~v).bit_length() + 1
    if a.op == 'sext':
        return a.a[0].w
    z = ((~a.kz) & mask(w)).bit_length() + 1
    if a.op == 'cat' and type(a.a[-1][1]) is not int and a.a[-1][1].op == 'sext':
        return w - a.a[-1][0] + a.a[-1][1].a[0].w
    return min(z, w)


def _sw(a, b, w):
    return min(w, max(_sigw(a, w), _sigw(b, w)))


def sle(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if sgn(a, w) <= sgn(b, w) else 0
    if a is b:
        return 1
    if type(b) is int:
        if b == mask(w - 1):
            return 1
        return slt(a, (b + 1) & mask(w), w)
    if type(a) is int:
        if a == 1 << (w - 1):
            return 1
        return slt((a - 1) & mask(w), b, w)
    za, oa = kb(a, w)
    zb, ob = kb(b, w)
    s = 1 << (w - 1)
    if (za & s and zb & s) or (oa & s and ob & s):
        return ule(a, b, w)
    if za & s and ob & s:
        return 0
    if oa & s and zb & s:
        return 1
    if w == 1:
        return or_(1, a, not1(b))
    n = _sw(a, b, w)
    if n < w:
        return sle(ext(a, w, 0, n), ext(b, w, 0, n), n)
    return mk('sle', 1, (a, b))


def hide(x):
    """a name for x: rewriting stops here, the solver sees through it"""
    if type(x) is int or x.op != 'ite':
        return x
    return mk('def', x.w, (x,))


def ctpop(w, x):
    if type(x) is int:
        return bin(x).count('1')
    return mk('ctpop', w, (x,))


def ctlz(w, x):
    if type(x) is int:
        return w - x.bit_length()
    if x.op == 'cat' and x.a[-1][1] == 0:
        k = x.a[-1][0]
        y = ext(x, w, 0, w - k)
        return add(w, zext(ctlz(w - k, y), w - k, w), k) if w - k >= 8 else mk('ctlz', w, (x,))
    return mk('ctlz', w, (x,))


def cttz(w, x):
    if type(x) is int:
        return tz(x, w)
    return mk('cttz', w, (x,))


def bswap(w, x):
    return cat([(8, ext(x, w, w - 8 - i, 8)) for i in range(0, w, 8)])


def bitrev(w, x):
    return cat([(1, ext(x, w, w - 1 - i, 1)) for i in range(w)])


def ubin_fshl(w, a, b, s):
    # s already mod w as value of width w
    if type(s) is int:
        s %= w
        if s == 0:
            return a
        return cat([(s, ext(b, w, w - s, s)), (w - s, ext(a, w, 0, w - s))])
    if w & (w - 1):
        raise NotImplementedError
    k = w.bit_length() - 1
    s = zext(ext(s, w, 0, k), k, w)
    if type(s) is int:
        return ubin_fshl(w, a, b, s)
    if _same(a, b):
        return mk('rotl', w, (a, s))
    # (a:b) << s, high half
    ab = cat([(w, b), (w, a)])
    return ext(shl(2 * w, ab, zext(s, w, 2 * w)), 2 * w, w, w)


def fshr(w, a, b, s):
    if type(s) is int:
        s %= w
        if s == 0:
            return b
        return ubin_fshl(w, a, b, w - s)
    if w & (w - 1):
        raise NotImplementedError
    k = w.bit_length() - 1
    s = zext(ext(s, w, 0, k), k, w)
    if type(s) is int:
        return fshr(w, a, b, s)
    if _same(a, b):
        return mk('rotl', w, (a, zext(ext(neg(w, s), w, 0, k), k, w)))
    ab = cat([(w, b), (w, a)])
    return ext(lshr(2 * w, ab, zext(s, w, 2 * w)), 2 * w, 0, w)


# ---------------------------------------------------------------- evaluation under a model
class Model(object):
    __slots__ = ('vars', 'arrs', 'memo')

    def __init__(self, vars=None, arrs=None):
        self.vars = vars or {}
        self.arrs = arrs or {}
        self.memo = {}

    def ev(self, e):
        if type(e) is int:
            return e
        memo = self.memo
        r = memo.get(e)
        if r is not None:
            return r
        stack = [e]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            todo = [y for y in kids(x) if y not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x] = self._ev1(x)
            stack.pop()
        return memo[e]

    def _ev1(self, x):
        op = x.op
        w = x.w
        a = x.a
        memo = self.memo
        if op == 'var':
            return self.vars.get(a[0], 0) & mask(w)
        if op == 'sel':
            i = self.g(a[1])
            return self.arrs.get(a[0].name, {}).get(i, 0)
        if op == 'cat':
            r = 0
            p = 0
            for pw, v in a:
                r |= (v if type(v) is int else memo[v]) << p
                p += pw
            return r
        if op == 'lin':
            r = a[0]
            for t, k in a[1]:
                r += memo[t] * k
            return r & mask(w)
        if op == 'ext':
            return (memo[a[0]] >> a[1]) & mask(w)
        if op == 'sext':
            return sext(memo[a[0]], a[0].w, w)
        g = self.g
        if op == 'and':
            r = a[0]
            for t in a[1:]:
                r &= memo[t]
            return r
        if op == 'or':
            r = a[0]
            for t in a[1:]:
                r |= memo[t]
            return r
        if op == 'xor':
            r = a[0]
            for t in a[1:]:
                r ^= memo[t]
            return r
        if op == 'ite':
            return g(a[1]) if g(a[0]) else g(a[2])
        if op in _pred:
            return _pred[op](g(a[0]), g(a[1]), _pw(x))
        if op in _bin:
            y = g(a[1])
            xx = g(a[0])
            if op == 'udiv' and y == 0:
                return mask(w)
            return _bin[op](w, xx, y)
        if op == 'ctpop':
            return bin(g(a[0])).count('1')
        if op == 'ctlz':
            return w - g(a[0]).bit_length()
        if op == 'cttz':
            return tz(g(a[0]), w)
        if op == 'def':
            return g(a[0])
        if op == 'rotl':
            s = g(a[1]) % w
            v = g(a[0])
            return ((v << s) | (v >> (w - s))) & mask(w)
        raise Exception('ev ' + op)

    def g(self, v):
        return v if type(v) is int else self.memo[v]


_pred = {'eq': eq, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle}
_bin = {'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr}


def kids(x):
    op = x.op
    if op == 'var':
        return ()
    if op == 'cat':
        return [v for w, v in x.a if type(v) is not int]
    if op == 'lin':
        return [t for t, k in x.a[1]]
    return [v for v in x.a if isinstance(v, E)]


# ---------------------------------------------------------------- z3 conversion
import z3


def _bv(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    return tobv(v)


def tobv(e):
    z = e.z
    if z is None:
        z = conv(e)
    if e.w == 1 and z3.is_bool(z):
        return z3.If(z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return z


def tobool(e):
    if type(e) is int:
        return z3.BoolVal(bool(e))
    z = e.z
    if z is None:
        z = conv(e)
    if z3.is_bool(z):
        return z
    return z == z3.BitVecVal(1, 1)


def conv(e):
    stack = [e]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        todo = [y for y in kids(x) if y.z is None]
        if todo:
            stack.extend(todo)
            continue
        x.z = _conv1(x)
        stack.pop()
    return e.z


def _conv1(x):
    op = x.op
    w = x.w
    a = x.a
    if op == 'var':
        return z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
    if op == 'sel':
        A = a[0]
        if A.z is None:
            A.z = z3.Array(A.name, z3.BitVecSort(64), z3.BitVecSort(A.ew))
        return z3.Select(A.z, _bv(a[1], 64))
    if op == 'cat':
        ps = [_bv(v, pw) for pw, v in reversed(a)]
        return z3.Concat(*ps)
    if op == 'lin':
        r = None
        m = mask(w)
        for t, k in a[1]:
            z = tobv(t)
            if k == 1:
                r = z if r is None else r + z
            elif k == m and r is not None:
                r = r - z
            elif k == m:
                r = -z
            else:
                z = z * z3.BitVecVal(k, w)
                r = z if r is None else r + z
        if a[0]:
            r = r + z3.BitVecVal(a[0], w)
        return r
    if op == 'ext':
        return z3.Extract(a[1] + w - 1, a[1], tobv(a[0]))
    if op == 'sext':
        return z3.SignExt(w - a[0].w, tobv(a[0]))
    if op in ('and', 'or', 'xor'):
        if w == 1:
            ts = [tobool(t) for t in a[1:]]
            if op == 'and':
                return z3.And(*ts) if len(ts) > 1 else ts[0]
            if op == 'or':
                return z3.Or(*ts) if len(ts) > 1 else ts[0]
            r = ts[0]
            for t in ts[1:]:
                r = z3.Xor(r, t)
            if a[0]:
                r = z3.Not(r)
            return r
        ts = [tobv(t) for t in a[1:]]
        r = ts[0]
        unit = {'and': mask(w), 'or': 0, 'xor': 0}[op]
        f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op]
        for t in ts[1:]:
            r = f(r, t)
        if a[0] != unit:
            r = f(r, z3.BitVecVal(a[0], w))
        return r
    if op == 'ite':
        if w == 1:
            return z3.If(tobool(a[0]), tobool(a[1]), tobool(a[2]))
        return z3.If(tobool(a[0]), _bv(a[1], w), _bv(a[2], w))
    if op in _pred:
        pw = _pw(x)
        p, q = _bv(a[0], pw), _bv(a[1], pw)
        if op == 'eq':
            return p == q
        if op == 'ult':
            return z3.ULT(p, q)
        if op == 'ule':
            return z3.ULE(p, q)
        if op == 'slt':
            return p < q
        return p <= q
    if op in _bin:
        p, q = _bv(a[0], w), _bv(a[1], w)
        if op == 'mul':
            return p * q
        if op == 'udiv':
            return z3.UDiv(p, q)
        if op == 'urem':
            return z3.URem(p, q)
        if op == 'sdiv':
            return p / q
        if op == 'srem':
            return z3.SRem(p, q)
        if op == 'shl':
            return p << q
        if op == 'lshr':
            return z3.LShR(p, q)
        return p >> q
    if op == 'def':
        return tobv(a[0])
    if op == 'rotl':
        return _zrotl(_bv(a[0], w), _bv(a[1], w), w)
    if op == 'ctpop':
        z = tobv(a[0])
        W = w
        if w < 8:
            W = 8
            z = z3.ZeroExt(W - w, z)
        if W & (W - 1):
            n = 1 << W.bit_length()
            z = z3.ZeroExt(n - W, z)
            W = n
        rep = lambda b: int('%02x' % b * (W // 8), 16)
        y = z - (z3.LShR(z, 1) & rep(0x55))
        y = (y & rep(0x33)) + (z3.LShR(y, 2) & rep(0x33))
        y = (y + z3.LShR(y, 4)) & rep(0x0f)
        k = 8
        while k < W:
            y = y + z3.LShR(y, k)
            k *= 2
        y = y & (2 * W - 1)
        return z3.Extract(w - 1, 0, y) if W > w else y
    if op == 'ctlz':
        z = tobv(a[0])
        r = z3.BitVecVal(w & mask(w), w)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, z) == 1, z3.BitVecVal(w - 1 - i, w), r)
        return r
    if op == 'cttz':
        z = tobv(a[0])
        r = z3.BitVecVal(w & mask(w), w)
        for i in reversed(range(w)):
            r = z3.If(z3.Extract(i, i, z) == 1, z3.BitVecVal(i, w), r)
        return r
    raise Exception('conv ' + op)


def _zrotl(v, s, w):
    return (v << s) | z3.LShR(v, z3.BitVecVal(w, w) - s)
