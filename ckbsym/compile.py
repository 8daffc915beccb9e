"""LLVM function text -> lists of Python closures"""
import re
from . import expr as X
from . import mem
from .expr import mask, E
from .ir import (P, toks, ptype, is_type, skip_attrs, unq, intt, PTR, VOID, IntT, ArrT, StructT, VecT, _parens)
from .mem import BASEOFF, Concretize

M64 = mask(64)
LBL = re.compile(r'^("[^"]*"|[-\w$.]+):')


class FC(object):
    """function compilation context"""

    def __init__(self, eng, name):
        self.eng = eng
        self.m = eng.m
        self.slots = {}
        self.consts = {}
        self.nslots = 0
        self.ctemplate = []
        self.edges = []

    def slot(self, n):
        s = self.slots.get(n)
        if s is None:
            s = self.slots[n] = len(self.ctemplate)
            self.ctemplate.append(None)
        return s

    def cslot(self, v):
        k = (type(v), v) if not isinstance(v, tuple) else ('t', v)
        s = self.consts.get(k)
        if s is None:
            s = self.consts[k] = len(self.ctemplate)
            self.ctemplate.append(v)
        return s

    def val(self, p, ty):
        t = p.peek()
        if t[0] == '%':
            p.next()
            return self.slot(unq(t)[1:])
        return self.cslot(self.eng.const(p, ty))

    def tval(self, p):
        ty = ptype(p)
        skip_attrs(p)
        return ty, self.val(p, ty)


def compile_fn(eng, name):
    from .engine import Fn, Block, Edge
    txt = eng.m.fn_text(name)
    lines = txt.split('\n')
    fc = FC(eng, name)
    hd = lines[0]
    # parameters
    p = P(toks(hd[hd.index('@'):]), eng.m)
    p.next()
    p.want('(')
    params = []
    while not p.eat(')'):
        if p.peek() == '...':
            p.next()
            continue
        ty = ptype(p)
        skip_attrs(p)
        t = p.peek()
        if t and t[0] == '%':
            params.append(fc.slot(unq(p.next())[1:]))
        else:
            params.append(fc.slot('!p%d' % len(params)))
        p.eat(',')
    blocks = {}
    order = []
    cur = None
    i = 1
    raw = []
    # unnamed entry block gets the next number; name it '!entry'
    cur = Block()
    cur.name = None
    cur.src = []
    first = cur
    order.append(cur)
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';':
            continue
        if ln[0] != ' ':
            mm = LBL.match(ln)
            lab = mm.group(1)
            if lab[0] == '"':
                lab = lab[1:-1]
            if cur is first and not cur.src and cur.name is None:
                cur.name = lab
            else:
                cur = Block()
                cur.name = lab
                cur.src = []
                order.append(cur)
            blocks[lab] = cur
            continue
        s = ln.strip()
        if s.startswith(';'):
            continue
        if s.startswith('switch ') and not s.rstrip().endswith(']'):
            while True:
                s += ' ' + lines[i].strip()
                i += 1
                if lines[i - 1].strip().startswith(']'):
                    break
        elif ' = landingpad ' in s or s.startswith('landingpad'):
            cur.src.append('!landingpad')
            continue
        elif s.startswith(('cleanup', 'catch ', 'filter ')):
            continue
        elif (' invoke ' in s or s.startswith('invoke ')) and ' unwind label ' not in s:
            s += ' ' + lines[i].strip()
            i += 1
        k = s.find(', !')
        if k >= 0:
            s = s[:k]
        k = s.find(' !dbg')
        if k >= 0:
            s = s[:k]
        cur.src.append(s)
    if first.name is None:
        # numbered entry: its number = number of params when unnamed
        first.name = '!entry'
    f = Fn()
    f.name = name
    f.params = params
    f.blocks = blocks
    # number of an unnamed entry block for phi references
    ph = {}
    pty = {}
    edges = {}

    def edge(frm, to):
        k = (frm.name, to)
        e = edges.get(k)
        if e is None:
            if to not in blocks:
                raise SyntaxError('label %s in %s' % (to, name))
            e = edges[k] = Edge(blocks[to])
        return e

    for b in order:
        b.ops = []
        b.pure = True
        b.br = None
        b.fold = None
        ph[b.name] = []
        for s in b.src:
            t = toks(s)
            if len(t) > 2 and t[1] == '=' and t[2] == 'phi':
                q = P(t, eng.m)
                d = fc.slot(unq(q.next())[1:])
                q.next()
                q.next()
                ty = ptype(q)
                pty[d] = ty
                inc = {}
                while True:
                    q.want('[')
                    v = fc.val(q, ty)
                    q.want(',')
                    lab = unq(q.next())[1:]
                    q.want(']')
                    inc[lab] = v
                    if not q.eat(','):
                        break
                ph[b.name].append((d, inc))
                continue
            try:
                op = comp(eng, fc, b, s, t, edge)
            except (SyntaxError, KeyError, IndexError, ValueError, AttributeError) as ex:
                raise SyntaxError('%s: cannot compile: %s (%s: %s)' % (name, s, type(ex).__name__, ex))
            if op is not None:
                b.ops.append(op)
                o = t[2] if len(t) > 2 and t[1] == '=' else t[0]
                if o == 'br':
                    continue
                if o not in PURE:
                    b.pure = False
    if first.name == '!entry' or True:
        # phi incoming labels that are not block names refer to the unnamed entry block
        for b in order:
            for d, inc in ph[b.name]:
                for lab in list(inc):
                    if lab not in blocks:
                        inc[first.name] = inc[lab]
    for (frm, to), e in edges.items():
        cp = []
        for d, inc in ph[to]:
            if frm not in inc:
                raise SyntaxError('phi edge %s->%s in %s' % (frm, to, name))
            cp.append((d, inc[frm]))
        e.phis = cp or None
    # short-circuit chains: A: br c1, X, B;  B (pure, only reached from A): br c2, X, C   ==>   one branch on c1 | c2
    npred = {}
    for (frm, to) in edges:
        npred[to] = npred.get(to, 0) + 1
    for b in order:
        if b.br is None:
            continue
        c, e1, e2 = b.br
        if e1 is e2 or e1.blk is e2.blk:
            continue
        opts = []
        for side, (ex, eb) in ((1, (e1, e2)), (0, (e2, e1))):
            B = eb.blk
            if B.br is None or not B.pure or npred.get(B.name) != 1 or B is first or len(B.ops) > 40:
                continue
            c2, f1, f2 = B.br
            if f1.blk is f2.blk:
                continue
            if f1.blk is ex.blk:
                opts.append((side, ex, eb, B, c2, 1, f1, f2))
            elif f2.blk is ex.blk:
                opts.append((side, ex, eb, B, c2, 0, f2, f1))
        if opts:
            side, ex, eb, B, c2, side2, fx, fo = opts[0]
            de = Edge(ex.blk)
            ds = []
            for k, (d, sl) in enumerate(ex.phis or ()):
                ds.append((d, fc.slot('!fold%s.%d' % (b.name, k)), sl, isinstance(pty.get(d), IntT)))
            de.phis = [(d, t_) for d, t_, _, _ in ds] or None
            fxs = dict(fx.phis or ())
            b.fold = (side, ex, eb, B.ops[:-1], c2, side2, fx, fo, de, [(d, t_, sl, fxs[d], it) for d, t_, sl, it in ds], B)
    f.entry = first
    f.template = fc.ctemplate
    f.nregs = len(fc.ctemplate)
    return f


PURE = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'select', 'zext', 'sext', 'trunc', 'freeze',
        'extractvalue', 'insertvalue'}


def folded(eng, st, R, x, fo):
    """decide a chain of branches that leave to the same block with the same values as one branch"""
    if eng.known(st, x) is not None:
        return None
    side, ex, eb, ops, c2, side2, fx, fother, de, ds, B = fo
    go = x if side else X.not1(x)
    acc = [R[d[2]] for d in ds]
    tmp = [d[1] for d in ds]
    n = 0
    other = eb
    while True:
        ph = eb.phis
        if ph:
            vals = [R[s] for d, s in ph]
            for (d, s), v in zip(ph, vals):
                R[d] = v
        for op in ops:
            op(st, R)
        y = R[c2]
        same = True
        for d, a in zip(ds, acc):
            b = R[d[3]]
            if not (a is b or (type(a) is int and type(b) is int and a == b)):
                same = False
                break
        if not same:
            break
        if type(y) is int:
            g2 = y if side2 else 1 - y
        else:
            g2 = y if side2 else X.not1(y)
        go = X.or_(1, go, g2)
        other = fother
        n += 1
        nf = B.fold
        if type(go) is int or nf is None or nf[1] is not fx:
            break
        side, ex, eb, ops, c2, side2, fx, fother, _, ds, B = nf
    if n == 0:
        return None
    for t_, a in zip(tmp, acc):
        R[t_] = a
    if type(go) is int:
        return de if go else other
    t, o = eng.split(st, go)
    if o is not None:
        eng.take(o.frames[-1], other if t else de)
        eng.work.append(o)
    return de if t else other


FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'inbounds', 'nneg', 'samesign', 'nusw', 'fast'}


def comp(eng, fc, blk, s, t, edge):
    from .engine import ICMP, BIN, RELOAD, Unsupported, EndPath
    if s == '!landingpad':
        def lp(st, R):
            raise Unsupported('landingpad')
        return lp
    p = P(t, eng.m)
    d = None
    if len(t) > 1 and t[1] == '=' and t[0][0] == '%':
        d = fc.slot(unq(t[0])[1:])
        p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        ty = ptype(p)
        a = fc.val(p, ty)
        p.want(',')
        b = fc.val(p, ty)
        f = BIN[op]
        if isinstance(ty, VecT):
            w = ty.el.w

            def vb(st, R):
                R[d] = tuple(f(w, x, y) for x, y in zip(R[a], R[b]))
            return vb
        w = ty.w
        m = mask(w)
        if op == 'add':
            def fadd(st, R):
                x = R[a]
                y = R[b]
                if type(x) is int and type(y) is int:
                    R[d] = (x + y) & m
                else:
                    R[d] = X.add(w, x, y)
            return fadd
        if op == 'and':
            def fand(st, R):
                x = R[a]
                y = R[b]
                if type(x) is int and type(y) is int:
                    R[d] = x & y
                else:
                    R[d] = X.and_(w, x, y)
            return fand
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            def fdiv(st, R):
                y = R[b]
                if type(y) is int and y == 0:
                    raise EndPath('ub', 'division by zero')
                R[d] = f(w, R[a], y)
            return fdiv

        def fb(st, R):
            R[d] = f(w, R[a], R[b])
        return fb
    if op == 'icmp':
        while p.peek() in FLAGS:
            p.next()
        pr = p.next()
        ty = ptype(p)
        a = fc.val(p, ty)
        p.want(',')
        b = fc.val(p, ty)
        f = ICMP[pr]
        if isinstance(ty, VecT):
            w = ty.el.w

            def vc(st, R):
                R[d] = tuple(f(x, y, w) for x, y in zip(R[a], R[b]))
            return vc
        w = ty.w
        if pr == 'eq':
            def feq(st, R):
                x = R[a]
                y = R[b]
                if type(x) is int and type(y) is int:
                    R[d] = 1 if x == y else 0
                else:
                    R[d] = X.eq(x, y, w)
            return feq

        def fc_(st, R):
            R[d] = f(R[a], R[b], w)
        return fc_
    if op in ('zext', 'sext', 'trunc'):
        while p.peek() in FLAGS:
            p.next()
        ty = ptype(p)
        a = fc.val(p, ty)
        p.want('to')
        to = ptype(p)
        f = {'zext': X.zext, 'sext': X.sext, 'trunc': X.trunc}[op]
        if isinstance(ty, VecT):
            fw, tw = ty.el.w, to.el.w

            def vz(st, R):
                R[d] = tuple(f(x, fw, tw) for x in R[a])
            return vz
        fw, tw = ty.w, to.w

        def fz(st, R):
            R[d] = f(R[a], fw, tw)
        return fz
    if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
        ty = ptype(p)
        a = fc.val(p, ty)
        to = ty
        if op != 'freeze':
            p.want('to')
            to = ptype(p)
        fw = getattr(ty, 'w', 0)
        tw = getattr(to, 'w', 0)
        if isinstance(ty, VecT) or isinstance(to, VecT):
            if op == 'freeze':
                def fmv(st, R):
                    R[d] = R[a]
                return fmv

            def vbc(st, R):
                v = R[a]
                if isinstance(ty, VecT):
                    v = X.cat([(ty.el.w, x) for x in v])
                if isinstance(to, VecT):
                    v = tuple(X.ext(v, fw, i * to.el.w, to.el.w) for i in range(to.n))
                R[d] = v
            return vbc
        if fw == tw or op == 'freeze':
            def fm(st, R):
                R[d] = R[a]
            return fm
        f = X.zext if tw > fw else X.trunc

        def fpi(st, R):
            R[d] = f(R[a], fw, tw)
        return fpi
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        ty = ptype(p)
        p.want(',')
        pt = ptype(p)
        a = fc.val(p, pt)
        return mk_load(eng, d, a, ty)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        ty = ptype(p)
        v = fc.val(p, ty)
        p.want(',')
        pt = ptype(p)
        a = fc.val(p, pt)
        return mk_store(eng, v, a, ty)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        ety = ptype(p)
        p.want(',')
        bt = ptype(p)
        base = fc.val(p, bt)
        idx = []
        while p.eat(','):
            it = ptype(p)
            idx.append((it.w, fc.val(p, it)))
        return mk_gep(fc, d, ety, base, idx)
    if op == 'select':
        ct = ptype(p)
        c = fc.val(p, ct)
        p.want(',')
        ty = ptype(p)
        a = fc.val(p, ty)
        p.want(',')
        ptype(p)
        b = fc.val(p, ty)

        def sel(c, a, b, ty):
            if type(c) is int:
                return a if c else b
            if isinstance(ty, StructT):
                return tuple(sel(c, x, y, t) for x, y, t in zip(a, b, ty.els))
            if isinstance(ty, (VecT, ArrT)):
                if isinstance(c, tuple):
                    return tuple(sel(q, x, y, ty.el) for q, x, y in zip(c, a, b))
                return tuple(sel(c, x, y, ty.el) for x, y in zip(a, b))
            return X.ite(c, a, b, ty.w)

        if isinstance(ty, (VecT, StructT, ArrT)):
            def fsv(st, R):
                c_ = R[c]
                if isinstance(c_, tuple):
                    R[d] = tuple(sel(q, x, y, ty.el) for q, x, y in zip(c_, R[a], R[b]))
                else:
                    R[d] = sel(c_, R[a], R[b], ty)
            return fsv
        w = ty.w

        def fs(st, R):
            x = R[c]
            if type(x) is int:
                R[d] = R[a] if x else R[b]
            else:
                k = eng.known(st, x)
                if k is not None:
                    R[d] = R[a] if k else R[b]
                else:
                    R[d] = X.ite(x, R[a], R[b], w)
        return fs
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            e = edge(blk, unq(p.next())[1:])

            def fj(st, R):
                return e
            return fj
        ty = ptype(p)
        c = fc.val(p, ty)
        p.want(',')
        p.want('label')
        e1 = edge(blk, unq(p.next())[1:])
        p.want(',')
        p.want('label')
        e2 = edge(blk, unq(p.next())[1:])

        blk.br = (c, e1, e2)

        def fbr(st, R):
            x = R[c]
            if type(x) is int:
                return e1 if x else e2
            fo = blk.fold
            if fo is not None:
                r = folded(eng, st, R, x, fo)
                if r is not None:
                    return r
            t, o = eng.split(st, x)
            if o is not None:
                eng.take(o.frames[-1], e2 if t else e1)
                eng.work.append(o)
            return e1 if t else e2
        return fbr
    if op == 'switch':
        ty = ptype(p)
        a = fc.val(p, ty)
        p.want(',')
        p.want('label')
        de = edge(blk, unq(p.next())[1:])
        p.want('[')
        cases = {}
        while not p.eat(']'):
            ptype(p)
            cv = eng.const(p, ty)
            p.want(',')
            p.want('label')
            cases[cv] = edge(blk, unq(p.next())[1:])
        w = ty.w
        bye = {}
        for v, e in cases.items():
            bye.setdefault(e, []).append(v)
        groups = list(bye.items())

        def fsw(st, R):
            x = R[a]
            if type(x) is int:
                return cases.get(x, de)
            v = st.eqs.get(x)
            if v is not None:
                return cases.get(v, de)
            conds = []
            rest = 1
            for e, vs in groups:
                if e is de:
                    continue
                c = 0
                for v in vs:
                    c = X.or_(1, c, X.eq(x, v, w))
                if type(c) is int and c == 0:
                    continue
                conds.append((c, e))
                rest = X.and_(1, rest, X.not1(c))
            conds.append((rest, de))
            # feasible alternatives
            feas = []
            mv = None
            for c, e in conds:
                if type(c) is int:
                    if c:
                        feas.append((c, e, st.model))
                    continue
                if st.model.ev(c) == 1:
                    feas.append((c, e, st.model))
                    continue
                if eng.known(st, c) is False:
                    continue
                r, m = eng.solver.check(st.pc, c)
                if r == 'sat':
                    feas.append((c, e, m))
                elif r == 'unsat':
                    st.known.add(X.not1(c))
                else:
                    from .engine import Inconclusive
                    raise Inconclusive('solver: unknown on switch')
            for c, e, m in feas[1:]:
                o = st.fork()
                o.model = m
                if type(c) is not int:
                    o.add(c)
                eng.take(o.frames[-1], e)
                eng.work.append(o)
            c, e, m = feas[0]
            st.model = m
            if type(c) is not int:
                st.add(c)
            return e
        return fsw
    if op == 'ret':
        ty = ptype(p)
        if ty is VOID:
            src = None
        else:
            src = fc.val(p, ty)

        def fret(st, R):
            fr = st.frames.pop()
            for a in fr.allocas:
                st.objs.pop(a, None)
            if not st.frames:
                raise EndPath('ret')
            top = st.frames[-1]
            if fr.ret is not None:
                top.R[fr.ret] = R[src] if src is not None else None
            if fr.cont is not None:
                eng.take(top, fr.cont)
            return RELOAD
        return fret
    if op == 'alloca':
        ty = ptype(p)
        n = 1
        nm = t[0][:20]
        if p.eat(','):
            if p.peek() != 'align':
                it = ptype(p)
                ns = fc.val(p, it)
                n = fc.ctemplate[ns]
        size = max(ty.alloc * n, 1)

        def fal(st, R):
            nid = st.nid + 1
            st.nid = nid
            o = mem.new_obj(nid, size, nm, owner=st.token)
            st.objs[nid] = o
            st.frames[-1].allocas.append(nid)
            R[d] = o.base
        return fal
    if op == 'unreachable':
        def fun(st, R):
            raise EndPath('ub', 'unreachable')
        return fun
    if op in ('extractvalue',):
        ty = ptype(p)
        a = fc.val(p, ty)
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        if len(ix) == 1:
            i0 = ix[0]

            def fev(st, R):
                R[d] = R[a][i0]
            return fev

        def fev2(st, R):
            v = R[a]
            for i in ix:
                v = v[i]
            R[d] = v
        return fev2
    if op == 'insertvalue':
        ty = ptype(p)
        a = fc.val(p, ty)
        p.want(',')
        vt = ptype(p)
        v = fc.val(p, vt)
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))

        def ins(agg, ix, v):
            l = list(agg)
            if len(ix) == 1:
                l[ix[0]] = v
            else:
                l[ix[0]] = ins(l[ix[0]], ix[1:], v)
            return tuple(l)

        def fiv(st, R):
            R[d] = ins(R[a], ix, R[v])
        return fiv
    if op == 'extractelement':
        ty = ptype(p)
        a = fc.val(p, ty)
        p.want(',')
        it = ptype(p)
        i = fc.val(p, it)

        def fee(st, R):
            R[d] = R[a][R[i]]
        return fee
    if op == 'insertelement':
        ty = ptype(p)
        a = fc.val(p, ty)
        p.want(',')
        vt = ptype(p)
        v = fc.val(p, vt)
        p.want(',')
        it = ptype(p)
        i = fc.val(p, it)

        def fie(st, R):
            l = list(R[a])
            l[R[i]] = R[v]
            R[d] = tuple(l)
        return fie
    if op == 'shufflevector':
        ty = ptype(p)
        a = fc.val(p, ty)
        p.want(',')
        ptype(p)
        b = fc.val(p, ty)
        p.want(',')
        mt = ptype(p)
        mk = fc.ctemplate[fc.val(p, mt)]

        def fsh(st, R):
            l = R[a] + R[b]
            R[d] = tuple(l[i] if type(l[i]) is not None else 0 for i in mk)
        return fsh
    if op in ('call', 'invoke'):
        return mk_call(eng, fc, blk, d, p, op, edge, s)
    if op == 'fence':
        return None
    if op == 'atomicrmw':
        p.eat('volatile')
        kind = p.next()
        pt = ptype(p)
        a = fc.val(p, pt)
        p.want(',')
        ty = ptype(p)
        v = fc.val(p, ty)
        n = ty.size
        w = ty.w

        def farmw(st, R):
            x = R[v]
            old = eng.load(st, R[a], n)
            if kind == 'xchg':
                nv = x
            elif kind in BIN:
                nv = BIN[kind](w, old, x)
            elif kind == 'umax':
                nv = X.ite(X.ult(old, x, w), x, old, w)
            elif kind == 'umin':
                nv = X.ite(X.ult(old, x, w), old, x, w)
            else:
                raise Unsupported('atomicrmw ' + kind)
            eng.store(st, R[a], n, nv)
            R[d] = old
        return farmw
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'):
            p.next()
        pt = ptype(p)
        a = fc.val(p, pt)
        p.want(',')
        ty = ptype(p)
        c = fc.val(p, ty)
        p.want(',')
        ptype(p)
        v = fc.val(p, ty)
        n = ty.size
        w = ty.w

        def fcx(st, R):
            old = eng.load(st, R[a], n)
            ok = X.eq(old, R[c], w)
            eng.store(st, R[a], n, X.ite(ok, R[v], old, w))
            R[d] = (old, ok)
        return fcx
    if op == 'resume':
        def fr_(st, R):
            raise Unsupported('resume')
        return fr_
    raise SyntaxError('opcode ' + op)


def mk_load(eng, d, a, ty):
    if isinstance(ty, VecT):
        n = ty.size
        w = ty.el.w

        def fvl(st, R):
            v = eng.load(st, R[a], n)
            R[d] = tuple(X.ext(v, 8 * n, i * w, w) for i in range(ty.n))
        return fvl
    if isinstance(ty, (StructT, ArrT)):
        def fsl(st, R):
            R[d] = load_agg(eng, st, R[a], ty)
        return fsl
    n = ty.size
    w = ty.w
    if w == 8 * n:
        if n in (1, 2, 4, 8):
            def fld(st, R):
                p = R[a]
                if type(p) is int:
                    o = st.objs.get(p >> 32)
                    if o is not None:
                        off = (p & 0xffffffff) - BASEOFF
                        if 0 <= off <= o.size - n and (off & 7) + n <= 8:
                            x = o.words.get(off >> 3)
                            if x is not None:
                                if n == 8:
                                    R[d] = x
                                    return
                                if type(x) is int:
                                    R[d] = (x >> (8 * (off & 7))) & ((1 << w) - 1)
                                    return
                R[d] = eng.load(st, p, n)
            return fld

        def fl(st, R):
            R[d] = eng.load(st, R[a], n)
        return fl

    def flx(st, R):
        R[d] = X.ext(eng.load(st, R[a], n), 8 * n, 0, w)
    return flx


def load_agg(eng, st, p, ty):
    if isinstance(ty, StructT):
        return tuple(load_agg(eng, st, X.add(64, p, o), t) for o, t in zip(ty.offs, ty.els))
    if isinstance(ty, ArrT):
        return tuple(load_agg(eng, st, X.add(64, p, i * ty.el.alloc), ty.el) for i in range(ty.n))
    v = eng.load(st, p, ty.size)
    return X.ext(v, 8 * ty.size, 0, ty.w)


def store_agg(eng, st, p, ty, v):
    if isinstance(ty, StructT):
        for o, t, x in zip(ty.offs, ty.els, v):
            store_agg(eng, st, X.add(64, p, o), t, x)
    elif isinstance(ty, ArrT):
        for i, x in enumerate(v):
            store_agg(eng, st, X.add(64, p, i * ty.el.alloc), ty.el, x)
    else:
        eng.store(st, p, ty.size, X.zext(v, ty.w, 8 * ty.size))


def mk_store(eng, v, a, ty):
    if isinstance(ty, VecT):
        n = ty.size
        w = ty.el.w

        def fvs(st, R):
            eng.store(st, R[a], n, X.cat([(w, x) for x in R[v]]))
        return fvs
    if isinstance(ty, (StructT, ArrT)):
        def fss(st, R):
            store_agg(eng, st, R[a], ty, R[v])
        return fss
    n = ty.size
    w = ty.w
    if w == 8 * n:
        def fst(st, R):
            eng.store(st, R[a], n, R[v])
        return fst

    def fsx(st, R):
        eng.store(st, R[a], n, X.zext(R[v], w, 8 * n))
    return fsx


def mk_gep(fc, d, ety, base, idx):
    # fold constants
    off = 0
    dyn = []
    t = None
    for k, (w, s) in enumerate(idx):
        cv = fc.ctemplate[s]
        if k == 0:
            sz = ety.alloc
            nt = ety
        elif isinstance(t, StructT):
            off += t.offs[cv]
            t = t.els[cv]
            continue
        else:
            sz = t.el.alloc
            nt = t.el
        if cv is not None and type(cv) is int:
            off += X.sgn(cv, w) * sz
        else:
            dyn.append((s, w, sz))
        t = nt
    off &= M64
    if not dyn:
        def g0(st, R):
            b = R[base]
            if type(b) is int:
                R[d] = (b + off) & M64
            else:
                R[d] = X.add(64, b, off)
        return g0
    if len(dyn) == 1:
        s, w, sz = dyn[0]

        def g1(st, R):
            b = R[base]
            i = R[s]
            if type(b) is int and type(i) is int:
                if w != 64:
                    i = X.sext(i, w, 64)
                R[d] = (b + off + i * sz) & M64
            else:
                R[d] = X.add(64, X.add(64, b, off), X.mul(64, X.sext(i, w, 64), sz))
        return g1

    def gn(st, R):
        r = X.add(64, R[base], off)
        for s, w, sz in dyn:
            r = X.add(64, r, X.mul(64, X.sext(R[s], w, 64), sz))
        R[d] = r
    return gn


CONVS = {'fastcc', 'coldcc', 'ccc', 'noundef', 'preserve_mostcc', 'preserve_allcc', 'cc'}


def mk_call(eng, fc, blk, d, p, op, edge, s):
    from .engine import RELOAD, Unsupported
    while True:
        t = p.peek()
        if t in ('fastcc', 'coldcc', 'ccc', 'preserve_mostcc'):
            p.next()
            continue
        if t in ('fast', 'nnan', 'ninf'):
            p.next()
            continue
        i = p.i
        skip_attrs(p)
        if p.i == i:
            break
    rty = ptype(p)
    if p.peek() == '(':
        _parens(p)
    t = p.next()
    target = None
    tslot = None
    if t[0] == '@':
        target = unq(t)[1:]
    elif t[0] == '%':
        tslot = fc.slot(unq(t)[1:])
    elif t == 'asm':
        def fasm(st, R):
            if d is not None:
                R[d] = 0
        if 'memory' in s or True:
            return fasm
    else:
        # constant expression callee
        p.i -= 1
        tslot = fc.cslot(eng.const(p, PTR))
    p.want('(')
    args = []
    tys = []
    while not p.eat(')'):
        if p.peek() == 'metadata':
            # skip the whole argument list
            dpt = 1
            while dpt:
                x = p.next()
                if x == '(':
                    dpt += 1
                elif x == ')':
                    dpt -= 1
            return None
        ty, v = fc.tval(p)
        args.append(v)
        tys.append(ty)
        p.eat(',')
    cont = None
    if op == 'invoke':
        while p.next() != 'to':
            pass
        p.want('label')
        cont = edge(blk, unq(p.next())[1:])
    if target is not None and target.startswith('llvm.'):
        from .models import intrinsic
        f = intrinsic(eng, target, d, args, tys, rty)
        if f is None or cont is None:
            return f

        def finv(st, R):
            f(st, R)
            return cont
        return finv
    if target is not None:
        h = eng.handler(target)
        if h is not None:
            return call_handler(eng, h, d, args, cont)
        if target in eng.m.fn_pos:
            def fcall(st, R):
                eng.enter(st, target, [R[a] for a in args], d, cont)
                return RELOAD
            return fcall

        def funk(st, R):
            raise Unsupported('external function ' + target)
        return funk

    def find(st, R):
        a = R[tslot]
        if type(a) is not int:
            q = a
            while type(q) is not int and q.op == 'ite':
                k = eng.known(st, q.a[0])
                if k is None:
                    from .engine import Fork
                    raise Fork([q.a[0], X.not1(q.a[0])])
                q = q.a[1] if k else q.a[2]
            a = eng.conc(st, q)
        name = eng.addr_fn.get(a)
        if name is None:
            eng.fault(st, 'oob', 'indirect call to %#x' % a)
        h = eng.handler(name)
        if h is not None:
            r = h(st, [R[x] for x in args])
            if r is RELOAD:
                st.frames[-1].ret = d
                st.frames[-1].cont = cont
                return RELOAD
            if d is not None:
                R[d] = r
            return cont
        if name not in eng.m.fn_pos:
            raise Unsupported('external function ' + name)
        eng.enter(st, name, [R[x] for x in args], d, cont)
        return RELOAD
    return find


def call_handler(eng, h, d, args, cont):
    from .engine import RELOAD

    def fh(st, R):
        r = h(st, [R[x] for x in args])
        if r is RELOAD:
            st.frames[-1].ret = d
            st.frames[-1].cont = cont
            return RELOAD
        if d is not None:
            R[d] = r
        return cont
    return fh
