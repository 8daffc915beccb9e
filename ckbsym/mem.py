"""Memory objects: word-cell overlay over a default content, with symbolic-offset writes as layers."""
from . import expr as X
from .expr import mask

M64 = mask(64)
BASEOFF = 0x10000


class MemError(Exception):
    pass


class Concretize(Exception):
    """ask the executor to fork over the feasible values of an expression"""

    def __init__(self, e):
        self.e = e


class Obj(object):
    __slots__ = ('id', 'size', 'base', 'words', 'below', 'dk', 'dv', 'gran', 'doff', 'ro', 'owner', 'name')

    def copy(self, owner):
        o = Obj()
        o.id = self.id
        o.size = self.size
        o.base = self.base
        o.words = self.words.copy()
        o.below = self.below
        o.dk = self.dk
        o.dv = self.dv
        o.gran = self.gran
        o.doff = self.doff
        o.ro = self.ro
        o.owner = owner
        o.name = self.name
        return o


class SymW(object):
    __slots__ = ('off', 'n', 'val', 'words', 'below')

    def __init__(self, off, n, val, words, below):
        self.off = off
        self.n = n
        self.val = val
        self.words = words
        self.below = below


def new_obj(oid, size, name, dk='undef', dv=None, gran=1, ro=False, owner=None):
    o = Obj()
    o.id = oid
    o.size = size
    o.base = (oid << 32) + BASEOFF
    o.words = {}
    o.below = None
    o.dk = dk
    o.dv = dv
    o.gran = gran
    o.doff = 0
    o.ro = ro
    o.owner = owner
    o.name = name
    return o


def _default_word(o, wi):
    dk = o.dk
    if dk == 'zero':
        return 0
    if dk == 'bytes':
        b = o.dv[8 * wi:8 * wi + 8]
        return int.from_bytes(b, 'little')
    if dk == 'undef':
        o.dv = X.arr('undef_%s_%d' % (o.name, o.id), 64)
        o.gran = 8
        o.dk = 'arr'
    # arr
    g = o.gran
    base = 8 * wi + o.doff
    if base % g:
        raise MemError('array granularity')
    if g == 8:
        return X.sel(o.dv, base // 8)
    return X.cat([(8 * g, X.sel(o.dv, (base + i) // g)) for i in range(0, 8, g)])


def _word(o, words, below, wi):
    v = words.get(wi)
    if v is not None:
        return v
    if below is None:
        return _default_word(o, wi)
    # walk down layers iteratively: collect the writes
    chain = []
    b = below
    while True:
        off = b.off
        lo, hi = off.lo, off.hi
        if not (hi + b.n <= 8 * wi or lo >= 8 * wi + 8):
            chain.append(b)
        v = b.words.get(wi)
        if v is not None:
            break
        b = b.below
        if b is None:
            v = _default_word(o, wi)
            break
    for b in reversed(chain):
        v = overlay_const(v, 8 * wi, 8, b.off, b.n, b.val)
    return v


def aligned(off, n):
    if n & (n - 1):
        return False
    if type(off) is int:
        return off & (n - 1) == 0
    return off.kz & (n - 1) == n - 1


def overlay_const(v, p, n, off, wn, val):
    """content v of the n bytes at constant p, after writing wn-byte val at symbolic off"""
    if aligned(off, wn) and wn <= n and p % wn == 0:
        parts = []
        for j in range(0, n, wn):
            c = X.eq(off, p + j, 64)
            parts.append((8 * wn, X.ite(c, val, X.ext(v, 8 * n, 8 * j, 8 * wn), 8 * wn)))
        return X.cat(parts)
    parts = []
    for j in range(n):
        b = X.ext(v, 8 * n, 8 * j, 8)
        for k in range(wn):
            if p + j - k < 0:
                continue
            c = X.eq(off, p + j - k, 64)
            b = X.ite(c, X.ext(val, 8 * wn, 8 * k, 8), b, 8)
        parts.append((8, b))
    return X.cat(parts)


KN = None       # (engine, state) while that state reads: its path condition may decide which write is seen


def overlay_sym(v, p, n, off, wn, val):
    """content v of n bytes at (symbolic) p after writing wn-byte val at off (maybe const)"""
    d = X.sub(64, p, off)
    if type(d) is int:
        if d == 0 and n == wn:
            return val
        if wn <= d <= M64 + 1 - n:
            return v
        parts = []
        for j in range(n):
            k = (d + j) & M64
            if k < wn:
                parts.append((8, X.ext(val, 8 * wn, 8 * k, 8)))
            else:
                parts.append((8, X.ext(v, 8 * n, 8 * j, 8)))
        return X.cat(parts)
    lo1, hi1 = X.lo_hi(p)
    lo2, hi2 = X.lo_hi(off)
    if hi1 + n <= lo2 or hi2 + wn <= lo1:
        return v
    if n == wn and aligned(p, n) and aligned(off, n):
        c = X.eq(p, off, 64)
        if KN is not None and type(c) is not int:
            k = KN[0].known(KN[1], c)
            if k is not None:
                c = int(k)
        return X.ite(c, val, v, 8 * n)
    if n < wn and aligned(p, n) and aligned(off, wn):
        for j in range(0, wn, n):
            v = X.ite(X.eq(p, X.add(64, off, j), 64), X.ext(val, 8 * wn, 8 * j, 8 * n), v, 8 * n)
        return v
    parts = []
    for j in range(n):
        b = X.ext(v, 8 * n, 8 * j, 8)
        for k in range(wn):
            c = X.eq(X.add(64, p, j), X.add(64, off, k), 64)
            b = X.ite(c, X.ext(val, 8 * wn, 8 * k, 8), b, 8)
        parts.append((8, b))
    return X.cat(parts)


def read(o, off, n):
    """off: int or E (bounds already checked); returns n-byte value"""
    if type(off) is int:
        wi = off >> 3
        sh = off & 7
        words = o.words
        if sh + n <= 8:
            w = words.get(wi)
            if w is None:
                w = _word(o, words, o.below, wi)
                if o.below is not None:
                    words[wi] = w
            if n == 8:
                return w
            if type(w) is int:
                return (w >> (8 * sh)) & ((1 << (8 * n)) - 1)
            return X.ext(w, 64, 8 * sh, 8 * n)
        parts = []
        while n > 0:
            k = min(8 - (off & 7), n)
            parts.append((8 * k, read(o, off, k)))
            off += k
            n -= k
        return X.cat(parts)
    return _read_sym(o, off, n)


LIMIT = 4200


def _read_sym(o, off, n):
    if n not in (1, 2, 4, 8):
        raise MemError('symbolic read of %d bytes' % n)
    layers = []  # top first: ('words', dict) / ('w', SymW)
    words, b = o.words, o.below
    seq = []
    while True:
        seq.append(words)
        if b is None:
            break
        seq.append(b)
        words, b = b.words, b.below
    # if a symbolic write exactly covers the read and nothing above it can overlap we may stop early
    v = None
    start = len(seq)
    lo, hi = off.lo, off.hi
    for i, it in enumerate(seq):
        if isinstance(it, SymW):
            if it.off is off and it.n == n:
                v = it.val
                start = i
                break
        else:
            if _cands(it, lo, hi, n):
                break
    if v is None:
        v = _default_sym(o, off, n)
    shadow = set()
    for it in reversed(seq[:start]):
        if isinstance(it, SymW):
            v = overlay_sym(v, off, n, it.off, it.n, it.val)
        else:
            v = _overlay_words(v, off, n, it)
    return v


def _cands(words, lo, hi, n):
    a = lo >> 3
    z = (hi + n - 1) >> 3
    if not words:
        return ()
    if z - a + 1 < len(words):
        return [i for i in range(a, z + 1) if i in words]
    return sorted(i for i in words if a <= i <= z)


def _overlay_words(v, off, n, words):
    cs = _cands(words, off.lo, off.hi, n)
    if not cs:
        return v
    if len(cs) > 40000:
        raise Concretize(off)
    if n < 8 and len(cs) > 8 and (off.kz | off.ko) & 7 == 7 and aligned(off, n):
        k = off.ko & 7
        x = _overlay_words(None, X.sub(64, off, k), 8, words)
        if x is not None:
            return X.ext(x, 64, 8 * k, 8 * n)
    if aligned(off, n):
        # group by value
        groups = {}
        order = []
        amask = ~off.kz & M64
        ko = off.ko
        for wi in cs:
            w = words[wi]
            for s in range(0, 8, n):
                p = 8 * wi + s
                if p & ~amask & M64 & ~0 and (p & off.kz):
                    continue
                if ko & ~p:
                    continue
                if p < off.lo or p > off.hi:
                    continue
                x = X.ext(w, 64, 8 * s, 8 * n)
                k = (x,) if type(x) is int else x
                if k not in groups:
                    groups[k] = []
                    order.append(k)
                groups[k].append(p)
        if len(order) > LIMIT:
            raise Concretize(off)
        tot = sum(len(g) for g in groups.values())
        # does the overlay cover every possible offset?
        step = n if n > 1 else 1
        full = _full(off, n, tot)
        big = n == 8 and len(order) > 8 and sum(1 for k in order if type(k) is tuple) <= 2
        if v is None and not (full and big):
            return None
        if full and order:
            hide = big
            big = max(order, key=lambda k: len(groups[k]))
            v = big[0] if type(big) is tuple else big
            order = [k for k in order if k is not big]
        for k in order:
            x = k[0] if type(k) is tuple else k
            c = _member(off, groups[k])
            v = X.ite(c, x, v, 8 * n)
        if full and order and hide:
            v = X.hide(v)
        return v
    if v is None:
        return None
    if len(cs) > 64:
        raise Concretize(off)
    for wi in cs:
        v = overlay_sym(v, off, n, 8 * wi, 8, words[wi])
    return v


def _full(off, n, tot):
    # number of offsets representable given known-zero bits and interval (aligned)
    fm = ~off.kz & ~off.ko & M64
    bits = bin(fm).count('1')
    if bits <= 20 and (1 << bits) <= tot:
        return True
    t = X.tz(~off.kz & M64, 64)
    cnt = (off.hi - off.lo) // (1 << t) + 1
    return cnt <= tot


def _member(off, ps):
    """condition that off is one of ps; contiguous runs become range tests"""
    t = X.tz(~off.kz & M64, 64)
    st = 1 << t
    ps = sorted(ps)
    r = 0
    i = 0
    while i < len(ps):
        j = i
        while j + 1 < len(ps) and ps[j + 1] == ps[j] + st:
            j += 1
        if j - i >= 2:
            c = X.and_(1, X.ule(ps[i], off, 64), X.ule(off, ps[j], 64))
        else:
            c = X.eq(off, ps[i], 64)
            if j > i:
                c = X.or_(1, c, X.eq(off, ps[j], 64))
        r = X.or_(1, r, c)
        i = j + 1
    return r


def _default_sym(o, off, n):
    dk = o.dk
    if dk == 'zero':
        return 0
    if dk == 'undef':
        _default_word(o, 0)
    if o.dk == 'bytes':
        # materialise words
        nw = (o.size + 7) // 8
        a = max(0, off.lo >> 3)
        z = min(nw - 1, (off.hi + n - 1) >> 3)
        if z - a > LIMIT:
            raise Concretize(off)
        ws = {}
        for wi in range(a, z + 1):
            ws[wi] = _default_word(o, wi)
        return _overlay_words(0, off, n, ws)
    g = o.gran
    a = X.add(64, off, o.doff)
    if not aligned(a, min(g, n)):
        if n == 1:
            pass
        else:
            # split into bytes
            return X.cat([(8, _default_sym1(o, X.add(64, a, j))) for j in range(n)])
    if n >= g:
        return X.cat([(8 * g, X.sel(o.dv, X.lshr(64, X.add(64, a, j), g.bit_length() - 1))) for j in range(0, n, g)])
    k = g.bit_length() - 1
    e = X.sel(o.dv, X.lshr(64, a, k))
    low = X.ext(a, 64, 0, k)
    v = X.ext(e, 8 * g, 0, 8 * n)
    for j in range(n, g, n):
        v = X.ite(X.eq(low, j, k), X.ext(e, 8 * g, 8 * j, 8 * n), v, 8 * n)
    return v


def _default_sym1(o, a):
    g = o.gran
    if g == 1:
        return X.sel(o.dv, a)
    k = g.bit_length() - 1
    e = X.sel(o.dv, X.lshr(64, a, k))
    low = X.ext(a, 64, 0, k)
    v = X.ext(e, 8 * g, 0, 8)
    for j in range(1, g):
        v = X.ite(X.eq(low, j, k), X.ext(e, 8 * g, 8 * j, 8), v, 8)
    return v


def write(o, off, n, val):
    if type(off) is int:
        words = o.words
        sh = off & 7
        if n == 8 and sh == 0:
            words[off >> 3] = val
            return
        if sh + n <= 8:
            wi = off >> 3
            w = words.get(wi)
            if w is None:
                w = _word(o, words, o.below, wi)
            if type(w) is int and type(val) is int:
                m = ((1 << (8 * n)) - 1) << (8 * sh)
                words[wi] = (w & ~m) | (val << (8 * sh))
            else:
                words[wi] = X.cat([(8 * sh, X.ext(w, 64, 0, 8 * sh)) if sh else (0, 0), (8 * n, val),
                                   (64 - 8 * (sh + n), X.ext(w, 64, 8 * (sh + n), 64 - 8 * (sh + n))) if sh + n < 8 else (0, 0)])
            return
        p = 0
        while n > 0:
            k = min(8 - (off & 7), n)
            if type(val) is int:
                write(o, off, k, (val >> p) & ((1 << (8 * k)) - 1))
            else:
                write(o, off, k, X.ext(val, val.w, p, 8 * k))
            off += k
            n -= k
            p += 8 * k
        return
    if n > 8:
        raise MemError('symbolic write of %d bytes' % n)
    o.below = SymW(off, n, val, o.words, o.below)
    o.words = {}


def make_symbolic(o, off, n, ar, gran, aoff=0):
    """back [off, off+n) with array elements; covering the whole object keeps it lazy"""
    if off == 0 and n == o.size and aoff == 0:
        o.words = {}
        o.below = None
        o.dk = 'arr'
        o.dv = ar
        o.gran = gran
        o.doff = 0
        return
    for i in range(0, n, gran):
        write(o, off + i, gran, X.sel(ar, (aoff + i) // gran))
