"""self-test of the expression layer: smart constructors vs constant evaluation vs z3"""
import random, sys, z3
sys.path.insert(0, __file__.rsplit('/', 2)[0])
from ckbsym import expr as X

def main(seed, n):
    rnd = random.Random(seed)
    ops2 = ['add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and_', 'or_', 'xor', 'shl', 'lshr', 'ashr']
    for it in range(n):
        nv = 3
        names = ['v%d_%d' % (it % 50, i) for i in range(nv)]
        ws = [rnd.choice([1, 5, 8, 12, 16, 32, 64]) for _ in names]
        vs = [X.var(nm + '_%d' % w, w) for nm, w in zip(names, ws)]
        val = [rnd.choice([0, 1, X.mask(w), 1 << (w - 1), rnd.getrandbits(w)]) & X.mask(w) for w in ws]
        model = X.Model({v.a[0]: c for v, c in zip(vs, val)})
        pool = [(v, c, w) for v, c, w in zip(vs, val, ws)]
        def rc(w):
            k = rnd.random()
            if k < .3: c = rnd.getrandbits(w)
            elif k < .5: c = 1 << rnd.randrange(w)
            elif k < .7: c = (1 << rnd.randrange(w)) - 1
            elif k < .85: c = rnd.randrange(min(1 << w, 16))
            else: c = X.mask(w) ^ ((1 << rnd.randrange(w)) - 1)
            return c & X.mask(w)
        def pick(w):
            c = [p for p in pool if p[2] == w]
            if c and rnd.random() < .75: 
                p = rnd.choice(c); return p[0], p[1]
            if rnd.random() < .5:
                p = rnd.choice(pool)
                if p[2] < w:
                    f = rnd.choice([X.zext, X.sext]); return f(p[0], p[2], w), f(p[1], p[2], w)
                if p[2] > w:
                    lo = rnd.randrange(p[2] - w + 1); return X.ext(p[0], p[2], lo, w), X.ext(p[1], p[2], lo, w)
            c = rc(w); return c, c
        for _ in range(12):
            w = rnd.choice([1, 5, 8, 16, 32, 64])
            k = rnd.random()
            if k < .55:
                o = rnd.choice(ops2)
                a, ca = pick(w); b, cb = pick(w)
                if o in ('shl', 'lshr', 'ashr') and rnd.random() < .6:
                    b = cb = rnd.randrange(w)
                f = getattr(X, o)
                r, c = f(w, a, b), f(w, ca, cb); rw = w
            elif k < .75:
                o = rnd.choice(['eq', 'ne', 'ult', 'ule', 'slt', 'sle'])
                a, ca = pick(w); b, cb = pick(w)
                f = getattr(X, o)
                r, c = f(a, b, w), f(ca, cb, w); rw = 1
            elif k < .83:
                q, cq = pick(1); a, ca = pick(w); b, cb = pick(w); o = 'ite'
                r, c = X.ite(q, a, b, w), (ca if cq else cb); rw = w
            elif k < .9:
                o = 'cat'
                a, ca = pick(8); b, cb = pick(8); d, cd = pick(16)
                r, c, rw = X.cat([(8, a), (8, b), (16, d)]), ca | cb << 8 | cd << 16, 32
            else:
                o = rnd.choice(['ctpop', 'ctlz', 'cttz', 'fshl', 'fshr', 'bitrev', 'bswap'])
                w = rnd.choice([16, 32, 64]); a, ca = pick(w); b, cb = pick(w); s, cs = pick(w); rw = w
                if o[0] == 'f':
                    if rnd.random() < .5: b, cb = a, ca
                    f = X.ubin_fshl if o == 'fshl' else X.fshr
                    r = f(w, a, b, s); sm = cs % w
                    if o == 'fshl': c = (((ca << w | cb) << sm) >> w) & X.mask(w)
                    else: c = ((ca << w | cb) >> sm) & X.mask(w)
                else:
                    f = getattr(X, o); r, c = f(w, a), f(w, ca)
            e = model.ev(r)
            assert e == c, (o, w, r, hex(e), hex(c))
            if type(r) is not int:
                assert r.w == rw
                assert r.lo <= c <= r.hi and c & r.kz == 0 and ~c & r.ko == 0, (o, r, hex(c))
                pool.append((r, c, rw))
                if rnd.random() < .15:
                    z = X.tobv(r)
                    zz = z3.simplify(z3.substitute(z, *[(v.z if v.z is not None else X.tobv(v), (z3.BoolVal(bool(cc)) if v.w == 1 else z3.BitVecVal(cc, v.w))) for v, cc in zip(vs, val) if X.conv(v) is not None]))
                    assert zz.as_long() == c, ('z3', o, r, zz, hex(c))
    return n

if __name__ == '__main__':
    print('ok', main(int(sys.argv[1]) if len(sys.argv) > 1 else 1, int(sys.argv[2]) if len(sys.argv) > 2 else 3000))
