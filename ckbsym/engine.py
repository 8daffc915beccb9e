"""Symbolic executor over LLVM IR (and, through x86.py, over the assembled x86-64 interpreter)."""
import re
import sys
import time
from . import expr as X
from . import mem
from .expr import mask, E
from .ir import (Module, P, toks, ptype, is_type, skip_attrs, unq, intt, PTR, VOID, ArrT, StructT, VecT, _parens)
from .mem import MemError, Concretize, BASEOFF
from .solver import Solver

M64 = mask(64)


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class Choice(Exception):
    def __init__(self, vals):
        self.vals = vals


class EndPath(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Unsupported(Exception):
    pass


class Inconclusive(Exception):
    pass


class Edge(object):
    __slots__ = ('blk', 'phis')

    def __init__(self, blk):
        self.blk = blk
        self.phis = None


class Reload(object):
    pass


RELOAD = Reload()


class Block(object):
    __slots__ = ('name', 'ops', 'src', 'idx', 'pure', 'br', 'fold')


class Fn(object):
    __slots__ = ('name', 'template', 'params', 'entry', 'nregs', 'blocks')


class Frame(object):
    __slots__ = ('fn', 'R', 'ops', 'ip', 'ret', 'allocas', 'cont', 'extra')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.R = self.R[:]
        f.ops = self.ops
        f.ip = self.ip
        f.ret = self.ret
        f.allocas = self.allocas[:]
        f.cont = self.cont
        f.extra = self.extra.copy() if self.extra is not None else None
        return f


class State(object):
    __slots__ = ('frames', 'objs', 'pc', 'model', 'known', 'eqs', 'rep', 'bnd', 'token', 'nid', 'inputs', 'observed', 'reached',
                 'steps', 'okptr', 'choices', 'nsym', 'finished', 'pending', 'entry', 'forced')

    def __init__(self):
        self.frames = []
        self.objs = {}
        self.pc = []
        self.model = X.Model()
        self.known = set()
        self.eqs = {}
        self.rep = {}
        self.bnd = {}
        self.token = object()
        self.nid = 0x100000
        self.inputs = []
        self.observed = []
        self.reached = []
        self.steps = 0
        self.okptr = {}
        self.choices = []
        self.nsym = 0
        self.finished = None
        self.pending = None
        self.entry = None
        self.forced = None

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.objs = self.objs.copy()
        s.pc = self.pc[:]
        s.model = self.model
        s.known = set(self.known)
        s.eqs = self.eqs.copy()
        s.rep = self.rep.copy()
        s.bnd = self.bnd.copy()
        self.token = object()
        s.token = object()
        s.nid = self.nid
        s.inputs = self.inputs[:]
        s.observed = self.observed[:]
        s.reached = self.reached[:]
        s.steps = self.steps
        s.okptr = self.okptr.copy()
        s.choices = self.choices[:]
        s.nsym = self.nsym
        s.finished = None
        s.pending = self.pending
        s.entry = self.entry
        s.forced = self.forced
        return s

    def add(self, c):
        """assume c (already known feasible with self.model satisfying it)"""
        if type(c) is int:
            assert c
            return
        if c in self.known:
            return
        if c.op == 'and' and c.w == 1 and c.a[0] == 1:
            for t in c.a[1:]:
                self.add(t)
            self.known.add(c)
            return
        if c.op == 'xor' and c.a[0] == 1 and len(c.a) == 2 and c.a[1].op == 'or' and c.a[1].a[0] == 0:
            for t in c.a[1].a[1:]:
                self.add(X.not1(t))
            self.known.add(c)
            return
        self.pc.append(c)
        self.known.add(c)
        if c.op == 'eq' and type(c.a[1]) is int:
            self.eqs[c.a[0]] = c.a[1]
            if c.a[0].w <= 16:
                self.rep[c.a[0]] = c.a[1]
        elif c.op == 'eq' and c.a[0].w <= 16:
            a, b = c.a
            rep = self.rep
            while type(a) is not int and a in rep:
                a = rep[a]
            while type(b) is not int and b in rep:
                b = rep[b]
            if a is not b and not (type(a) is int and type(b) is int):
                if type(a) is int:
                    rep[b] = a
                else:
                    rep[a] = b
        elif c.op == 'ult' or c.op == 'ule':
            a, b = c.a
            k = 1 if c.op == 'ult' else 0
            if type(b) is int:
                lo, hi = self.bounds(a)
                self.bnd[a] = (lo, min(hi, b - k))
            elif type(a) is int:
                lo, hi = self.bounds(b)
                self.bnd[b] = (max(lo, a + k), hi)

    def bounds(self, x):
        r = self.bnd.get(x)
        if r is None:
            if x.op == 'lin' and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
                t = x.a[1][0][0]
                b = self.bnd.get(t)
                if b is not None and b[1] + x.a[0] <= X.mask(x.w):
                    return max(x.lo, b[0] + x.a[0]), min(x.hi, b[1] + x.a[0])
            return x.lo, x.hi
        return r


PANIC = re.compile(r'^_ZN4core9panicking|^rust_begin_unwind|^_ZN3std9panicking|^_ZN5alloc5alloc18handle_alloc_error|^_ZN3std7process5abort|^_ZN3std5alloc|_ZN5alloc7raw_vec17capacity_overflow|_ZN5alloc7raw_vec12handle_error|6unwrap_failed17h|slice_error_fail|expect_failed')


class Engine(object):
    def __init__(self, mod, log=None):
        self.m = mod
        self.fns = {}
        self.fn_addr = {}
        self.addr_fn = {}
        self.gl_addr = {}
        self.gl_by_id = {}
        self.ngl = 16
        self.handlers = {}
        self.solver = Solver()
        self.work = []
        self.violations = []
        self.done = []
        self.log = log or (lambda s: None)
        self.extern_data = {}
        self.max_steps = 20_000_000
        self.npaths = 0
        self.steps = 0
        self.ncomp = set()
        self.asm = None
        self.deadline = None
        self.tier = 0
        self.nassert = 0
        self.assert_ids = {}
        self.inconclusive = []
        from . import models
        models.install(self)

    # ------------------------------------------------------------ addresses
    def faddr(self, name):
        a = self.fn_addr.get(name)
        if a is None:
            a = (1 << 32) + BASEOFF + 16 * len(self.fn_addr)
            self.fn_addr[name] = a
            self.addr_fn[a] = name
        return a

    def gaddr(self, name):
        a = self.gl_addr.get(name)
        if a is None:
            if name in self.m.fn_pos or name in self.m.decls:
                return self.faddr(name)
            if name in self.m.globals:
                d = self.m.globals[name]
                if re.match(r'(?:[\w]+ )*alias ', d):
                    p = P(toks(d), self.m)
                    t = p.t[-1]
                    return self.gaddr(unq(t)[1:])
            i = self.ngl
            self.ngl += 1
            a = (i << 32) + BASEOFF
            self.gl_addr[name] = a
            self.gl_by_id[i] = name
        return a

    def materialize(self, st, oid):
        name = self.gl_by_id.get(oid)
        if name is None:
            return None
        o = self.extern_data.get(name)
        if o is None:
            o = self._mk_global(name, oid)
            self.extern_data[name] = o
        st.objs[oid] = o
        return o

    def _mk_global(self, name, oid):
        d = self.m.globals.get(name)
        if d is None:
            raise Unsupported('global ' + name)
        p = P(toks(d), self.m)
        ro = False
        while True:
            t = p.next()
            if t == 'constant':
                ro = True
                break
            if t == 'global':
                break
            if t == '(':
                p.i -= 1
                _parens(p)
        ty = ptype(p)
        o = mem.new_obj(oid, max(ty.alloc, 1), name[:40], dk='zero', ro=ro)
        if p.peek() is None or p.peek() == ',':
            # external declaration
            o.dk = 'zero'
            return o
        v = self.const(p, ty)
        self._init(o, 0, ty, v)
        return o

    def _init(self, o, off, ty, v):
        if v is None:
            return
        k = ty.kind if hasattr(ty, 'kind') else 'vec'
        if isinstance(v, bytes):
            for i in range(0, len(v), 8):
                ch = v[i:i + 8]
                for j in (0,):
                    if len(ch) == 8 and (off + i) % 8 == 0:
                        mem.write(o, off + i, 8, int.from_bytes(ch, 'little'))
                    else:
                        for q, b in enumerate(ch):
                            mem.write(o, off + i + q, 1, b)
            return
        if k in ('int', 'ptr'):
            mem.write(o, off, ty.size, v)
        elif k == 'arr':
            for i, x in enumerate(v):
                self._init(o, off + i * ty.el.alloc, ty.el, x)
        elif k == 'struct':
            for t, q, x in zip(ty.els, ty.offs, v):
                self._init(o, off + q, t, x)
        else:
            for i, x in enumerate(v):
                self._init(o, off + i * ty.el.size, ty.el, x)

    # ------------------------------------------------------------ constants
    def zero(self, ty):
        if isinstance(ty, VecT) or isinstance(ty, ArrT):
            return (self.zero(ty.el),) * ty.n
        if isinstance(ty, StructT):
            return tuple(self.zero(t) for t in ty.els)
        return 0

    def const(self, p, ty):
        t = p.next()
        if t in ('zeroinitializer', 'undef', 'poison', 'none'):
            return self.zero(ty)
        if t == 'null':
            return 0
        if t == 'true':
            return 1
        if t == 'false':
            return 0
        c0 = t[0]
        if c0.isdigit() or c0 == '-':
            if '.' in t or 'e' in t:
                return 0
            return int(t) & mask(ty.w)
        if t.startswith('c"'):
            return cstr(t[2:-1])
        if c0 == '@':
            return self.gaddr(unq(t)[1:])
        if t == '[' or (t == '<' and not p.peek() == '{') or t == '{' or t == '<':
            if t == '<' and p.peek() == '{':
                p.next()
                end = '}'
                dbl = True
            else:
                dbl = False
                end = {'[': ']', '<': '>', '{': '}'}[t]
            out = []
            while True:
                if p.eat(end):
                    break
                et = ptype(p)
                out.append(self.const(p, et))
                if p.eat(end):
                    break
                p.want(',')
            if dbl:
                p.want('>')
            return tuple(out)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            p.want('(')
            st = ptype(p)
            v = self.const(p, st)
            p.want('to')
            dt = ptype(p)
            p.want(')')
            if t == 'trunc':
                return v & mask(dt.w)
            return v
        if t == 'getelementptr':
            p.eat('inbounds')
            while p.peek() in ('nuw', 'nusw', 'inrange'):
                if p.next() == 'inrange':
                    _parens(p)
            p.want('(')
            ety = ptype(p)
            p.want(',')
            bt = ptype(p)
            b = self.const(p, bt)
            idx = []
            while p.eat(','):
                it = ptype(p)
                idx.append((it, self.const(p, it)))
            p.want(')')
            return gep(ety, b, [(it.w, v) for it, v in idx])
        if t in ('add', 'sub', 'xor', 'and', 'or', 'shl', 'lshr'):
            while p.peek() in ('nuw', 'nsw'):
                p.next()
            p.want('(')
            at = ptype(p)
            a = self.const(p, at)
            p.want(',')
            bt = ptype(p)
            b = self.const(p, bt)
            p.want(')')
            f = {'add': X.add, 'sub': X.sub, 'xor': X.xor, 'and': X.and_, 'or': X.or_, 'shl': X.shl, 'lshr': X.lshr}[t]
            return f(at.w, a, b)
        if t == 'icmp':
            pr = p.next()
            p.want('(')
            at = ptype(p)
            a = self.const(p, at)
            p.want(',')
            bt = ptype(p)
            b = self.const(p, bt)
            p.want(')')
            return ICMP[pr](a, b, at.w)
        if t == 'splat':
            p.want('(')
            et = ptype(p)
            v = self.const(p, et)
            p.want(')')
            return (v,) * ty.n
        if t in ('dso_local_equivalent', 'no_cfi'):
            return self.const(p, ty)
        raise Unsupported('const ' + t)

    # ------------------------------------------------------------ function compilation
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self.fns[name] = compile_fn(self, name)
            self.ncomp.add(name)
        return f

    # ------------------------------------------------------------ memory
    def robj(self, st, oid):
        o = st.objs.get(oid)
        if o is None:
            o = self.materialize(st, oid)
        return o

    def fault(self, st, kind, msg):
        self.violation(st, kind, msg, st.model)
        raise EndPath(kind, msg)

    def resolve(self, st, p, n):
        """pointer (E) -> (object id, offset int|E); bounds are proved or reported"""
        v = st.eqs.get(p)
        if v is not None:
            oid = v >> 32
            o = self.robj(st, oid)
            off = (v & 0xffffffff) - BASEOFF
            if o is None or off < 0 or off + n > o.size:
                self.fault(st, 'oob', 'access of %d bytes at %#x' % (n, v))
            return o, off
        r = st.okptr.get((p, n))
        if r is not None:
            o = st.objs.get(r[0]) or self.robj(st, r[0])
            if o is None:
                self.fault(st, 'oob', 'access to freed object')
            off = r[1]
            w = st.eqs.get(off)
            if w is None and st.rep:
                w = X.subst(off, st.rep)
            return o, (off if w is None else w)
        q = p
        while q.op == 'ite':
            k = self.known(st, q.a[0])
            if k is None:
                raise Fork([q.a[0], X.not1(q.a[0])])
            q = q.a[1] if k else q.a[2]
            if type(q) is int:
                oid = q >> 32
                o = self.robj(st, oid)
                off = (q & 0xffffffff) - BASEOFF
                if o is None or off < 0 or off + n > o.size:
                    self.fault(st, 'oob', 'access of %d bytes at %#x' % (n, q))
                return o, off
        oid = None
        if q.lo >> 32 == q.hi >> 32:
            oid = q.lo >> 32
        elif q.op == 'lin':
            c = q.a[0]
            if (c >> 32) and self.robj(st, c >> 32) is not None:
                oid = c >> 32
            else:
                # a term that is itself a pointer-like cat with constant high part
                for t, k in q.a[1]:
                    if k == 1 and t.lo >> 32 and t.lo >> 32 == t.hi >> 32 and self.robj(st, t.lo >> 32) is not None:
                        oid = t.lo >> 32
                        break
        if oid is None:
            mv = st.model.ev(q)
            oid = mv >> 32
            if self.robj(st, oid) is None:
                # maybe small positive/negative displacement of a symbolic pointer
                self.fault(st, 'oob', 'wild pointer %#x' % mv)
            # does it always point into that object id?
            c = X.eq(X.lshr(64, q, 32), oid, 64)
            k = self.decide(st, c)
            if k is None:
                raise Fork([c, X.not1(c)])
        o = self.robj(st, oid)
        if o is None:
            self.fault(st, 'oob', 'wild pointer (object %#x)' % oid)
        off = X.sub(64, q, o.base)
        if type(off) is int:
            if off + n > o.size:
                self.fault(st, 'oob', 'access of %d bytes at offset %#x of %s (size %d)' % (n, off, o.name, o.size))
            return o, off
        if off.hi > o.size - n:
            bad = X.ult(o.size - n, off, 64) if o.size >= n else 1
            d = self.decide(st, bad)
            if d is None or d:
                if d is None:
                    r, m = self.solver.check(st.pc, bad)
                else:
                    m = st.model
                self.violation(st, 'oob', 'access of %d bytes beyond %s (size %d)' % (n, o.name, o.size), m)
                if d:
                    raise EndPath('oob')
                self.assume(st, X.not1(bad))
        st.okptr[(p, n)] = (oid, off)
        w = st.eqs.get(off)
        if w is None and st.rep:
            w = X.subst(off, st.rep)
        return o, (off if w is None else w)

    def load(self, st, p, n):
        if type(p) is int:
            oid = p >> 32
            o = st.objs.get(oid)
            if o is None:
                o = self.materialize(st, oid)
            off = (p & 0xffffffff) - BASEOFF
            if o is None or off < 0 or off + n > o.size:
                self.fault(st, 'oob', 'read of %d bytes at %#x (%s)' % (n, p, o and (o.name, o.size)))
        else:
            o, off = self.resolve(st, p, n)
        if type(off) is not int:
            mem.KN = (self, st)
            try:
                if n > 8:
                    return X.cat([(64, mem.read(o, X.add(64, off, i), 8)) for i in range(0, n, 8)])
                return mem.read(o, off, n)
            finally:
                mem.KN = None
        return mem.read(o, off, n)

    def wobj(self, st, o):
        if o.owner is not st.token:
            if o.ro:
                self.fault(st, 'oob', 'write to constant ' + o.name)
            o = o.copy(st.token)
            st.objs[o.id] = o
        return o

    def store(self, st, p, n, v):
        if type(p) is int:
            oid = p >> 32
            o = st.objs.get(oid)
            if o is None:
                o = self.materialize(st, oid)
            off = (p & 0xffffffff) - BASEOFF
            if o is None or off < 0 or off + n > o.size:
                self.fault(st, 'oob', 'write of %d bytes at %#x (%s)' % (n, p, o and (o.name, o.size)))
        else:
            o, off = self.resolve(st, p, n)
        if o.owner is not st.token:
            o = self.wobj(st, o)
        if type(off) is not int and n > 8:
            for i in range(0, n, 8):
                mem.write(o, X.add(64, off, i), 8, X.ext(v, 8 * n, 8 * i, 64))
            return
        mem.write(o, off, n, v)

    def alloc(self, st, size, name, dk='undef'):
        st.nid += 1
        o = mem.new_obj(st.nid, size, name, dk=dk, owner=st.token)
        st.objs[st.nid] = o
        return o.base

    def conc(self, st, e):
        if type(e) is int:
            return e
        v = st.eqs.get(e)
        if v is not None:
            return v
        raise Concretize(e)

    # ------------------------------------------------------------ path conditions
    def known(self, st, c):
        if type(c) is int:
            return bool(c)
        if c in st.known:
            return True
        n = X.not1(c)
        if n in st.known:
            return False
        if c.op == 'eq' and type(c.a[1]) is int:
            v = st.eqs.get(c.a[0])
            if v is not None:
                return v == c.a[1]
        elif c.op == 'ult' or c.op == 'ule':
            a, b = c.a
            k = 1 if c.op == 'ult' else 0
            if type(b) is int:
                lo, hi = st.bounds(a)
                if hi + k <= b:
                    return True
                if lo + k > b:
                    return False
            elif type(a) is int:
                lo, hi = st.bounds(b)
                if a + k <= lo:
                    return True
                if a + k > hi:
                    return False
        return None

    def decide(self, st, c):
        """True/False if implied by the path condition, None if both sides are feasible.
        When None, self.other holds a model of the side the state's model is not on."""
        k = self.known(st, c)
        if k is not None:
            return k
        mv = st.model.ev(c)
        opp = X.not1(c) if mv else c
        r, m = self.solver.check(st.pc, opp)
        if r == 'unsat':
            st.known.add(X.not1(opp))
            return bool(mv)
        if r == 'unknown':
            raise Inconclusive('solver: unknown on branch %s %s' % (st.choices[:8], X.show(opp, 4)[:300]))
        self.other = m
        self.other_side = not mv
        return None

    def assume(self, st, c):
        """restrict the path to c; ends the path if infeasible"""
        if type(c) is int:
            if not c:
                raise EndPath('assume')
            return
        k = self.known(st, c)
        if k:
            return
        if k is False:
            raise EndPath('assume')
        if st.model.ev(c) != 1:
            r, m = self.solver.check(st.pc, c)
            if r == 'unsat':
                raise EndPath('assume')
            if r == 'unknown':
                raise Inconclusive('solver: unknown on assume')
            st.model = m
        st.add(c)

    def split(self, st, c):
        """fork on a symbolic condition. Returns (truth for st, other state or None)"""
        k = self.decide(st, c)
        if k is not None:
            return k, None
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive('deadline')
        o = st.fork()
        om, oside = self.other, self.other_side
        o.model = om
        if oside:
            o.add(c)
            st.add(X.not1(c))
            return False, o
        o.add(X.not1(c))
        st.add(c)
        return True, o

    def check_assert(self, st, c, aid):
        self.nassert += 1
        self.assert_ids[aid] = self.assert_ids.get(aid, 0) + 1
        if type(c) is int:
            if not c:
                self.violation(st, 'assert', aid, st.model)
                raise EndPath('assert')
            return
        k = self.known(st, c)
        if k:
            return
        if st.model.ev(c) == 0:
            self.violation(st, 'assert', aid, st.model)
            self.assume(st, c)
            return
        t = time.time()
        r, m = self.solver.check(st.pc, X.not1(c), goal=True)
        if time.time() - t > 8:
            self.log('slow query: assert %d %.1f s %s %s' % (aid, time.time() - t, st.entry, st.choices[:8]))
        if r == 'sat':
            self.violation(st, 'assert', aid, m)
        elif r == 'unknown':
            self.inconclusive.append('assert %d: solver gave up [%s %s]' % (aid, st.entry, st.choices[:8]))
        else:
            st.known.add(c)
            return
        st.add(c)

    def violation(self, st, kind, msg, model):
        v = {'entry': st.entry, 'kind': kind, 'msg': msg, 'inputs': self.ser_inputs(st, model), 'choices': list(st.choices),
             'stack': [f.fn.name if f.fn is not None else 'x64' for f in st.frames][-8:]}
        self.violations.append(v)

    def ser_inputs(self, st, model):
        out = []
        for it in st.inputs:
            if it[0] == 'v':
                out.append(['v', model.vars.get(it[1], 0) & M64])
            elif it[0] == 'c':
                out.append(['v', it[1]])
            else:
                _, name, gran, ln = it
                ent = model.arrs.get(name, {})
                out.append(['a', gran, ln, sorted((k, v) for k, v in ent.items() if k * gran < ln)])
        return out

    # ------------------------------------------------------------ running
    def enter(self, st, name, args, ret=None, cont=None):
        f = self.fn(name)
        fr = Frame()
        fr.fn = f
        R = f.template[:]
        for s, a in zip(f.params, args):
            R[s] = a
        fr.R = R
        fr.ops = f.entry.ops
        fr.ip = 0
        fr.ret = ret
        fr.allocas = []
        fr.cont = cont
        fr.extra = None
        st.frames.append(fr)
        if len(st.frames) > 200:
            raise Unsupported('deep recursion')

    def take(self, fr, e):
        """jump along an edge"""
        ph = e.phis
        if ph:
            R = fr.R
            vals = [R[s] for d, s in ph]
            i = 0
            for d, s in ph:
                R[d] = vals[i]
                i += 1
        fr.ops = e.blk.ops
        fr.ip = 0

    def start(self, name, args=(), forced=None):
        st = State()
        st.entry = name
        st.forced = forced
        self.enter(st, name, args)
        return st

    def run(self, st):
        """run one path until it ends; forks are pushed on self.work"""
        try:
            self._run(st)
        except EndPath as e:
            if e.kind == 'ub':
                self.violation(st, 'ub', e.msg, st.model)
            self.finish(st, e.kind, e.msg)

    def finish(self, st, kind, msg=''):
        st.finished = kind
        self.npaths += 1
        self.steps += st.steps
        self.on_finish(st, kind, msg)

    def on_finish(self, st, kind, msg):
        self.done.append((kind, msg))

    def _run(self, st):
        while True:
            fr = st.frames[-1]
            ops = fr.ops
            R = fr.R
            i = fr.ip
            try:
                while True:
                    r = ops[i](st, R)
                    i += 1
                    if r is None:
                        continue
                    t = type(r)
                    if t is Edge:
                        ph = r.phis
                        if ph:
                            if len(ph) == 1:
                                d, s = ph[0]
                                R[d] = R[s]
                            else:
                                vals = [R[s] for d, s in ph]
                                j = 0
                                for d, s in ph:
                                    R[d] = vals[j]
                                    j += 1
                        ops = r.blk.ops
                        fr.ops = ops
                        i = 0
                        st.steps += len(ops)
                        if st.steps > self.max_steps:
                            raise Inconclusive('step limit')
                        continue
                    if t is int:
                        i = r
                        st.steps += 1
                        if st.steps > self.max_steps:
                            raise Inconclusive('step limit')
                        continue
                    fr.ip = i
                    if not st.frames:
                        raise EndPath('ret')
                    break
            except Fork as e:
                fr.ip = i
                self.do_fork(st, e.conds)
            except Choice as e:
                fr.ip = i
                for v in reversed(e.vals[1:]):
                    o = st.fork()
                    o.pending = v
                    self.work.append(o)
                st.pending = e.vals[0]
            except Concretize as e:
                fr.ip = i
                self.do_conc(st, e.e)
            except MemError as e:
                raise Unsupported('%s in %s' % (e, fr.fn.name if fr.fn else 'x64'))

    def do_fork(self, st, conds):
        c = conds[0]
        k, o = self.split(st, c)
        if o is not None:
            self.work.append(o)

    def do_conc(self, st, e, limit=4200):
        v = st.model.ev(e)
        first = True
        n = 0
        base_pc = list(st.pc)
        vals = []
        excl = []
        m = st.model
        while True:
            vals.append((v, m))
            excl.append(X.ne(e, v, e.w))
            if len(vals) > limit:
                raise Unsupported('concretisation limit on %r' % e)
            c = 1
            for x in excl:
                c = X.and_(1, c, x)
            r, m = self.solver.check(base_pc, c)
            if r == 'unsat':
                break
            if r == 'unknown':
                raise Inconclusive('solver: unknown on concretisation')
            v = m.ev(e)
        for v, m in vals[1:]:
            o = st.fork()
            o.model = m
            o.add(X.eq(e, v, e.w))
            o.eqs[e] = v
            self.work.append(o)
        v, m = vals[0]
        st.add(X.eq(e, v, e.w))
        st.eqs[e] = v

    def explore(self, st):
        self.work = [st]
        while self.work:
            self.run(self.work.pop())


def cstr(s):
    out = bytearray()
    i = 0
    b = s.encode('utf-8', 'surrogateescape')
    n = len(b)
    while i < n:
        if b[i] == 92:
            if b[i + 1] == 92:
                out.append(92)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def gep(ety, base, idx):
    w, i0 = idx[0]
    r = X.add(64, base, X.mul(64, X.sext(i0, w, 64), ety.alloc))
    t = ety
    for w, i in idx[1:]:
        if isinstance(t, StructT):
            r = X.add(64, r, t.offs[i])
            t = t.els[i]
        else:
            t = t.el
            r = X.add(64, r, X.mul(64, X.sext(i, w, 64), t.alloc))
    return r


ICMP = {
    'eq': X.eq, 'ne': X.ne, 'ult': X.ult, 'ule': X.ule, 'slt': X.slt, 'sle': X.sle,
    'ugt': lambda a, b, w: X.ult(b, a, w), 'uge': lambda a, b, w: X.ule(b, a, w),
    'sgt': lambda a, b, w: X.slt(b, a, w), 'sge': lambda a, b, w: X.sle(b, a, w),
}
BIN = {'add': X.add, 'sub': X.sub, 'mul': X.mul, 'and': X.and_, 'or': X.or_, 'xor': X.xor, 'shl': X.shl, 'lshr': X.lshr,
       'ashr': X.ashr, 'udiv': X.udiv, 'urem': X.urem, 'sdiv': X.sdiv, 'srem': X.srem}

from .compile import compile_fn  # noqa
