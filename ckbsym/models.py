"""Models of LLVM intrinsics, the allocator, libc, panics and the harness intrinsics.

Every entry here is part of the claim (listed in DESIGN.md as a stub).
"""
import re
from . import expr as X
from . import mem
from .expr import mask
from .mem import BASEOFF, Concretize
from .ir import IntT, VecT

M64 = mask(64)
NOP = ('llvm.experimental.noalias', 'llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.x86.sse2.pause', 'llvm.donothing',
       'llvm.invariant', 'llvm.prefetch', 'llvm.var.annotation', 'llvm.x86.avx.vzeroupper', 'llvm.sideeffect')


def intrinsic(eng, name, d, a, tys, rty):
    from .engine import Unsupported, EndPath
    if name.startswith(NOP):
        return None
    if name.startswith(('llvm.memcpy', 'llvm.memmove')):
        def f(st, R):
            memcpy(eng, st, R[a[0]], R[a[1]], R[a[2]])
        return f
    if name.startswith('llvm.memset'):
        def f(st, R):
            memset(eng, st, R[a[0]], R[a[1]], R[a[2]])
        return f
    if name == 'llvm.trap':
        def f(st, R):
            eng.fault(st, 'panic', 'llvm.trap')
        return f
    vec = tys and isinstance(tys[0], VecT)
    w = (tys[0].el.w if vec else getattr(tys[0], 'w', 0)) if tys else 0
    g = None
    m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.', name)
    if m:
        sg, op = m.groups()

        def f(st, R):
            R[d] = ovf(sg, op, w, R[a[0]], R[a[1]])
        return f
    m = re.match(r'llvm\.(u|s)(add|sub)\.sat\.', name)
    if m:
        sg, op = m.groups()

        def g(x, y):
            r, o = ovf(sg, op, w, x, y)
            if sg == 'u':
                return X.ite(o, mask(w) if op == 'add' else 0, r, w)
            neg = X.ext(x, w, w - 1, 1)
            return X.ite(o, X.ite(neg, 1 << (w - 1), mask(w - 1), w), r, w)
    elif name[5:9] in ('umax', 'umin', 'smax', 'smin') and not isinstance(rty, VecT):
        pr = X.ult if name[5] == 'u' else X.slt
        mx = name[6:8] == 'ma'

        def f(st, R):
            x, y = R[a[0]], R[a[1]]
            c = pr(x, y, w)
            if type(c) is not int:
                k = eng.known(st, c)
                if k is not None:
                    c = int(k)
            R[d] = X.ite(c, y, x, w) if mx else X.ite(c, x, y, w)
        return f
    elif name.startswith('llvm.umax'):
        g = lambda x, y: X.ite(X.ult(x, y, w), y, x, w)
    elif name.startswith('llvm.umin'):
        g = lambda x, y: X.ite(X.ult(x, y, w), x, y, w)
    elif name.startswith('llvm.smax'):
        g = lambda x, y: X.ite(X.slt(x, y, w), y, x, w)
    elif name.startswith('llvm.smin'):
        g = lambda x, y: X.ite(X.slt(x, y, w), x, y, w)
    elif name.startswith('llvm.abs'):
        def f(st, R):
            x = R[a[0]]
            R[d] = X.ite(X.slt(x, 0, w), X.neg(w, x), x, w)
        return f
    elif name.startswith('llvm.fshl'):
        g = lambda x, y, z: X.ubin_fshl(w, x, y, z)
    elif name.startswith('llvm.fshr'):
        g = lambda x, y, z: X.fshr(w, x, y, z)
    elif name.startswith('llvm.ctpop'):
        g = lambda x: X.ctpop(w, x)
    elif name.startswith('llvm.bswap'):
        g = lambda x: X.bswap(w, x)
    elif name.startswith('llvm.bitreverse'):
        g = lambda x: X.bitrev(w, x)
    elif name.startswith('llvm.ctlz'):
        g = lambda x, z=0: X.ctlz(w, x)
        a = a[:1]
    elif name.startswith('llvm.cttz'):
        g = lambda x, z=0: X.cttz(w, x)
        a = a[:1]
    elif name.startswith('llvm.is.constant'):
        def f(st, R):
            R[d] = 0
        return f
    elif name.startswith('llvm.expect'):
        def f(st, R):
            R[d] = R[a[0]]
        return f
    elif name.startswith('llvm.load.relative'):
        def f(st, R):
            o = X.sext(eng.load(st, X.add(64, R[a[0]], R[a[1]]), 4), 32, 64)
            R[d] = X.add(64, R[a[0]], o)
        return f
    elif name.startswith('llvm.vector.reduce.'):
        op = name.split('.')[3]
        from .engine import BIN

        def f(st, R):
            r = None
            for x in R[a[0]]:
                r = x if r is None else BIN[op](w, r, x)
            R[d] = r
        return f
    elif name.startswith(('llvm.ucmp', 'llvm.scmp')):
        lt = X.ult if name.startswith('llvm.ucmp') else X.slt
        rw = rty.w

        def f(st, R):
            x, y = R[a[0]], R[a[1]]
            R[d] = X.ite(lt(x, y, w), mask(rw), X.ite(X.eq(x, y, w), 0, 1, rw), rw)
        return f
    elif name.startswith('llvm.ptrmask'):
        g = lambda x, y: X.and_(64, x, y)
    elif name == 'llvm.x86.sse2.pmovmskb.128' or name.startswith('llvm.x86.sse2.pmovmskb'):
        def f(st, R):
            R[d] = X.cat([(1, X.ext(x, 8, 7, 1)) for x in R[a[0]]] + [(16, 0)])
        return f
    if g is not None:
        if vec:
            def f(st, R):
                R[d] = tuple(g(*xs) for xs in zip(*[R[x] for x in a]))
            return f

        def f(st, R):
            R[d] = g(*[R[x] for x in a])
        return f

    def bad(st, R):
        raise Unsupported('intrinsic ' + name)
    return bad


def ovf(sg, op, w, x, y):
    if op == 'mul':
        n = 2 * w
        ex = X.zext if sg == 'u' else X.sext
        p = X.mul(n, ex(x, w, n), ex(y, w, n))
        r = X.ext(p, n, 0, w)
        if sg == 'u':
            o = X.ne(X.ext(p, n, w, w), 0, w)
        else:
            o = X.ne(p, X.sext(r, w, n), n)
        return (r, o)
    if op == 'add':
        r = X.add(w, x, y)
        if sg == 'u':
            o = X.ult(r, y, w) if type(y) is int else X.ult(r, x, w)
            # r < x  <=> overflow ; with a constant y: x > max - y
            if type(y) is int:
                o = X.ult(mask(w) - y, x, w)
            elif type(x) is int:
                o = X.ult(mask(w) - x, y, w)
        else:
            sx, sy, sr = (X.ext(v, w, w - 1, 1) for v in (x, y, r))
            o = X.and_(1, X.eq(sx, sy, 1), X.ne(sx, sr, 1))
        return (r, o)
    r = X.sub(w, x, y)
    if sg == 'u':
        o = X.ult(x, y, w)
    else:
        sx, sy, sr = (X.ext(v, w, w - 1, 1) for v in (x, y, r))
        o = X.and_(1, X.ne(sx, sy, 1), X.ne(sx, sr, 1))
    return (r, o)


def memcpy(eng, st, dst, src, n):
    n = eng.conc(st, n)
    if n == 0:
        return
    if n <= 8 and n & (n - 1) == 0:
        eng.store(st, dst, n, eng.load(st, src, n))
        return
    # bounds
    if type(dst) is not int or type(src) is not int:
        do, doff = loc(eng, st, dst, n)
        so, soff = loc(eng, st, src, n)
    else:
        do, doff = loc(eng, st, dst, n)
        so, soff = loc(eng, st, src, n)
    do = eng.wobj(st, do)
    if so.id == do.id:
        so = do
    if type(doff) is int and type(soff) is int:
        if so is do:
            # overlapping-safe: buffer
            vals = []
            i = 0
            while i < n:
                k = step(doff + i, n - i)
                vals.append((i, k, mem.read(so, soff + i, k)))
                i += k
            for i, k, v in vals:
                mem.write(do, doff + i, k, v)
            return
        i = 0
        # fast path for big aligned copies from a default-only area
        while i < n:
            k = step(doff + i, n - i)
            if k == 8 and (soff + i) & 7 == 0:
                wi = (soff + i) >> 3
                v = so.words.get(wi)
                if v is None:
                    v = mem._word(so, so.words, so.below, wi)
                do.words[(doff + i) >> 3] = v
            else:
                mem.write(do, doff + i, k, mem.read(so, soff + i, k))
            i += k
        return
    # symbolic offsets: chunked
    al = 8
    while al > 1 and not (mem.aligned(doff, al) and mem.aligned(soff, al)):
        al //= 2
    if n > 4096:
        raise Concretize(doff if type(doff) is not int else soff)
    vals = []
    i = 0
    while i < n:
        k = al
        while k > n - i:
            k //= 2
        vals.append((i, k, mem.read(so, X.add(64, soff, i), k)))
        i += k
    for i, k, v in vals:
        mem.write(do, X.add(64, doff, i), k, v)


def step(off, left):
    k = 8 - (off & 7)
    if k == 8:
        if left >= 8:
            return 8
    while k > left or k & (k - 1) or off & (k - 1):
        k -= 1
    return k


def loc(eng, st, p, n):
    if type(p) is int:
        oid = p >> 32
        o = eng.robj(st, oid)
        off = (p & 0xffffffff) - BASEOFF
        if o is None or off < 0 or off + n > o.size:
            eng.fault(st, 'oob', 'copy of %d bytes at %#x' % (n, p))
        return o, off
    return eng.resolve(st, p, n)


def memset(eng, st, p, v, n):
    n = eng.conc(st, n)
    if n == 0:
        return
    v = X.ext(v, 8, 0, 8) if type(v) is not int else v & 255
    o, off = loc(eng, st, p, n)
    o = eng.wobj(st, o)
    if type(off) is not int:
        if n > 64:
            raise Concretize(off)
        al = 8
        while al > 1 and not mem.aligned(off, al):
            al //= 2
        i = 0
        while i < n:
            k = al
            while k > n - i:
                k //= 2
            mem.write(o, X.add(64, off, i), k, X.cat([(8, v)] * k))
            i += k
        return
    if off == 0 and n == o.size and type(v) is int and v == 0:
        o.words = {}
        o.below = None
        o.dk = 'zero'
        return
    i = 0
    w8 = X.cat([(8, v)] * 8)
    while i < n:
        k = step(off + i, n - i)
        if k == 8:
            o.words[(off + i) >> 3] = w8
        else:
            mem.write(o, off + i, k, X.ext(w8, 64, 0, 8 * k))
        i += k


def install(eng):
    from .engine import PANIC, RELOAD, Unsupported, EndPath, Choice
    H = eng.handlers
    pats = []

    def handler(name):
        h = H.get(name)
        if h is not None:
            return h
        if PANIC.search(name):
            def h(st, args):
                eng.fault(st, 'panic', name + ' from ' + ' < '.join((f.fn.name if f.fn else 'x64')[:90] for f in reversed(st.frames[-3:])))
            H[name] = h
            return h
        for rx, f in pats:
            if rx.search(name):
                H[name] = f
                return f
        return None
    eng.handler = handler

    def h_malloc(st, a):
        n = eng.conc(st, a[0])
        return eng.alloc(st, n, 'heap')

    def h_calloc(st, a):
        n = eng.conc(st, a[0]) * eng.conc(st, a[1])
        return eng.alloc(st, n, 'heap', 'zero')

    def h_memalign(st, a):
        p = eng.alloc(st, eng.conc(st, a[2]), 'heap')
        eng.store(st, a[0], 8, p)
        return 0

    def h_aligned_alloc(st, a):
        return eng.alloc(st, eng.conc(st, a[1]), 'heap')

    def h_free(st, a):
        p = a[0]
        if type(p) is not int:
            p = eng.conc(st, p)
        if p == 0:
            return
        if p >> 32 not in st.objs or (p & 0xffffffff) != BASEOFF:
            eng.fault(st, 'oob', 'invalid free %#x' % p)
        del st.objs[p >> 32]

    def h_realloc(st, a):
        p = eng.conc(st, a[0])
        n = eng.conc(st, a[1])
        q = eng.alloc(st, n, 'heap')
        if p:
            o = st.objs[p >> 32]
            memcpy(eng, st, q, p, min(o.size, n))
            del st.objs[p >> 32]
        return q

    H['malloc'] = h_malloc
    H['calloc'] = h_calloc
    H['free'] = h_free
    H['realloc'] = h_realloc
    H['posix_memalign'] = h_memalign
    H['aligned_alloc'] = h_aligned_alloc

    def h_bcmp(st, a):
        n = eng.conc(st, a[2])
        c = 1
        for i in range(n):
            x = eng.load(st, X.add(64, a[0], i), 1)
            y = eng.load(st, X.add(64, a[1], i), 1)
            c = X.and_(1, c, X.eq(x, y, 8))
            if type(c) is int and c == 0:
                break
        return X.ite(c, 0, 1, 32)

    def h_memcmp(st, a):
        n = eng.conc(st, a[2])
        r = 0
        for i in reversed(range(n)):
            x = eng.load(st, X.add(64, a[0], i), 1)
            y = eng.load(st, X.add(64, a[1], i), 1)
            r = X.ite(X.eq(x, y, 8), r, X.ite(X.ult(x, y, 8), M64 >> 32, 1, 32), 32)
        return r
    H['bcmp'] = h_bcmp
    H['memcmp'] = h_memcmp

    def h_strlen(st, a):
        p = eng.conc(st, a[0])
        n = 0
        while True:
            b = eng.conc(st, eng.load(st, p + n, 1))
            if b == 0:
                return n
            n += 1
    H['strlen'] = h_strlen

    def h_abort(st, a):
        eng.fault(st, 'panic', 'abort')
    H['abort'] = h_abort

    def h_fmt_ok(st, a):
        return 0

    def h_format(st, a):
        # sret String: empty
        eng.store(st, a[0], 8, 0)
        eng.store(st, X.add(64, a[0], 8), 8, 1)
        eng.store(st, X.add(64, a[0], 16), 8, 0)
        return None
    pats.append((re.compile(r'^_ZN5alloc3fmt6format12format_inner'), h_format))
    pats.append((re.compile(r'^_ZN4core3fmt5write17h|^_ZN4core3fmt9Formatter'), h_fmt_ok))

    def h_randkeys(st, a):
        return (0x0123456789abcdef, 0xfedcba9876543210)
    pats.append((re.compile(r'hashmap_random_keys'), h_randkeys))

    # ---- harness intrinsics
    def h_sym_u64(st, a):
        st.nsym += 1
        nm = 's%d' % st.nsym
        st.inputs.append(('v', nm))
        return X.var(nm, 64)

    def h_sym_bytes(st, a):
        p, n, tag, gran = [eng.conc(st, x) for x in a]
        nm = 'A%d' % tag
        ar = X.arr(nm, gran * 8)
        o, off = loc(eng, st, p, n)
        o = eng.wobj(st, o)
        mem.make_symbolic(o, off, n, ar, gran)
        st.inputs.append(('a', nm, gran, n))
        return None

    def h_assume(st, a):
        c = X.ne(a[0], 0, 32)
        eng.assume(st, c)
        return None

    def h_assert(st, a):
        c = X.ne(a[0], 0, 32)
        aid = eng.conc(st, a[1])
        eng.check_assert(st, c, aid)
        return None

    def h_reach(st, a):
        st.reached.append(eng.conc(st, a[0]))
        return None

    def h_observe(st, a):
        st.observed.append(a[0])
        return None

    def h_choice(st, a):
        n = eng.conc(st, a[0])
        k = len(st.choices)
        forced = st.forced
        if forced is not None and k < len(forced):
            f = forced[k]
            vals = [f] if type(f) is int else list(f)
        else:
            vals = list(range(n))
        if st.pending is not None:
            v = st.pending
            st.pending = None
            st.choices.append(v)
            st.inputs.append(('c', v))
            return v
        raise Choice(vals)

    def h_conc(st, a):
        return eng.conc(st, a[0])

    def h_print(st, a):
        eng.log('PRINT %s' % [x if type(x) is not int else hex(x) for x in a])
        return None
    H['sym_u64'] = h_sym_u64
    H['sym_bytes'] = h_sym_bytes
    H['sym_assume'] = h_assume
    H['sym_assert'] = h_assert
    H['sym_choice'] = h_choice
    H['sym_reach'] = h_reach
    H['sym_observe'] = h_observe
    H['sym_concretize'] = h_conc
    H['sym_tier'] = lambda st, a: eng.tier
    H['sym_print'] = h_print
