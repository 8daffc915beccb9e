"""x86-64 front end: the assembled interpreter (execute_x64.o) as symbolic code.

The object file is disassembled with objdump on every run; each instruction becomes a closure over (state, registers).
R[0..15] = rax rcx rdx rbx rsp rbp rsi rdi r8..r15, R[16] = lazy flags.
"""
import re
import struct
import subprocess
from . import expr as X
from . import mem
from .expr import mask

M64 = mask(64)
R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
REGS = {}
for _i, _n in enumerate(R64):
    REGS[_n] = (_i, 64, 0)
    if _i < 8:
        REGS['e' + _n[1:]] = (_i, 32, 0)
        REGS[_n[1:]] = (_i, 16, 0)
    else:
        REGS[_n + 'd'] = (_i, 32, 0)
        REGS[_n + 'w'] = (_i, 16, 0)
        REGS[_n + 'b'] = (_i, 8, 0)
for _i, _n in enumerate(['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil']):
    REGS[_n] = (_i, 8, 0)
for _i, _n in enumerate(['ah', 'ch', 'dh', 'bh']):
    REGS[_n] = (_i, 8, 8)
SZ = {'BYTE': 8, 'WORD': 16, 'DWORD': 32, 'QWORD': 64}
FL = 16
CC = {'e': 'e', 'z': 'e', 'ne': '!e', 'nz': '!e', 'b': 'b', 'c': 'b', 'nae': 'b', 'ae': '!b', 'nb': '!b', 'nc': '!b', 'be': 'be',
      'na': 'be', 'a': '!be', 'nbe': '!be', 's': 's', 'ns': '!s', 'l': 'l', 'nge': 'l', 'ge': '!l', 'nl': '!l', 'le': 'le', 'ng': 'le',
      'g': '!le', 'nle': '!le', 'o': 'o', 'no': '!o'}
RETMARK = 0x7ff0dead0000beef


def parse_obj(path):
    """-> (text bytes, relocations {offset: (type, sym, addend)}, disassembly [(addr, size, text)], symbols)"""
    d = open(path, 'rb').read()
    if d[:4] != b'\x7fELF':
        raise RuntimeError('not an ELF object')
    shoff = struct.unpack_from('<Q', d, 0x28)[0]
    shn, shstr = struct.unpack_from('<HH', d, 0x3c)
    sh = []
    for i in range(shn):
        sh.append(struct.unpack_from('<IIQQQQIIQQ', d, shoff + 64 * i))
    st = d[sh[shstr][4]:]
    nm = lambda o: st[o:st.index(b'\0', o)].decode()
    names = [nm(s[0]) for s in sh]
    ti = names.index('.text')
    t = sh[ti]
    text = d[t[4]:t[4] + t[5]]
    syms = []
    symi = [i for i, s in enumerate(sh) if s[1] == 2][0]
    strs = d[sh[sh[symi][6]][4]:]
    for o in range(sh[symi][4], sh[symi][4] + sh[symi][5], 24):
        n, info, oth, shx, val, size = struct.unpack_from('<IBBHQQ', d, o)
        syms.append((strs[n:strs.index(b'\0', n)].decode(), shx, val))
    rel = {}
    for s in sh:
        if s[1] == 4 and s[7] == ti:
            for o in range(s[4], s[4] + s[5], 24):
                off, info, add = struct.unpack_from('<QQq', d, o)
                sy = syms[info >> 32]
                rel[off] = (info & 0xffffffff, sy, add)
    out = subprocess.run(['objdump', '-d', '-M', 'intel', '-w', path], capture_output=True, text=True, check=True).stdout
    dis = []
    for l in out.split('\n'):
        m = re.match(r'^\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*(?:\t(.*))?$', l)
        if m and m.group(3):
            dis.append((int(m.group(1), 16), len(m.group(2).split()), m.group(3).strip()))
    labels = {}
    for n, shx, val in syms:
        if shx == ti and n:
            labels.setdefault(n, val)
    return text, rel, dis, labels


class Asm(object):
    def __init__(self, eng, path):
        self.eng = eng
        self.text, self.rel, self.dis, self.labels = parse_obj(path)
        self.entry = self.labels['ckb_vm_x64_execute']
        self.base_lab = self.labels['ckb_vm_asm_labels']
        tn = 'ckb_vm_asm_labels'
        i = eng.ngl
        eng.ngl += 1
        self.table = (i << 32) + mem.BASEOFF
        eng.gl_addr[tn] = self.table
        eng.gl_by_id[i] = tn
        body = self.text[self.base_lab:]
        body += b'\0' * (-len(body) % 8)
        eng.extern_data[tn] = mem.new_obj(self.table >> 32, len(body), tn, dk='bytes', dv=body, ro=True)
        self.index = {}
        self.ins = []
        for a, n, t in self.dis:
            if a >= self.entry:
                self.index[a] = len(self.ins)
                self.ins.append((a, n, t))
        self.ops = [None] * len(self.ins)
        self.byaddr = {}
        for n, v in self.labels.items():
            self.byaddr.setdefault(v, n)
        self.executed = set()
        self.nj = 0
        self._compile_all()
        eng.asm = self
        eng.handlers['ckb_vm_x64_execute'] = self.call_in

    # ------------------------------------------------------------ entry
    def call_in(self, st, a):
        from .engine import Frame, RELOAD
        fr = Frame()
        fr.fn = None
        R = [0] * 17
        st.nsym += 1
        for i in range(16):
            R[i] = X.var('x86junk%d_%d' % (i, st.nsym), 64)
        stk = self.eng.alloc(st, 1024, 'x64stack')
        fr.extra = None
        rsp = stk + 1024 - 16 - 8
        self.eng.store(st, rsp, 8, RETMARK)
        R[4] = rsp
        R[7] = a[0]
        R[6] = a[1]
        R[16] = ('u',)
        fr.R = R
        fr.ops = self.ops
        fr.ip = self.index[self.entry]
        fr.ret = None
        fr.cont = None
        fr.allocas = [stk >> 32]
        fr.extra = Saved([R[i] for i in (3, 5, 12, 13, 14, 15)], rsp)
        st.frames.append(fr)
        self.executed.add(self.entry)
        return RELOAD

    # ------------------------------------------------------------ flags
    def cond(self, cc, f):
        """-> 0/1/E1"""
        neg = cc[0] == '!'
        if neg:
            cc = cc[1:]
        k = f[0]
        if k == 'u':
            raise Und(cc)
        if k == 'sub':
            _, w, a, b, r = f
            if cc == 'e':
                v = X.eq(a, b, w)
            elif cc == 'b':
                v = X.ult(a, b, w)
            elif cc == 'be':
                v = X.ule(a, b, w)
            elif cc == 'l':
                v = X.slt(a, b, w)
            elif cc == 'le':
                v = X.sle(a, b, w)
            elif cc == 's':
                v = X.ext(r, w, w - 1, 1)
            elif cc == 'o':
                v = X.xor(1, X.slt(a, b, w), X.ext(r, w, w - 1, 1))
            else:
                raise Und(cc)
        else:
            # ('x', w, res, cf, of, zf?) : explicit
            _, w, r, cf, of = f
            if type(cf) is Lz:
                cf = cf.f()
            if type(of) is Lz and cc in ('o', 'l', 'le'):
                of = of.f()
            if cc == 'e':
                if r is None:
                    raise Und(cc)
                v = X.eq(r, 0, w)
            elif cc == 's':
                if r is None:
                    raise Und(cc)
                v = X.ext(r, w, w - 1, 1)
            elif cc == 'b':
                if cf is None:
                    raise Und(cc)
                v = cf
            elif cc == 'be':
                if cf is None or r is None:
                    raise Und(cc)
                v = X.or_(1, cf, X.eq(r, 0, w))
            elif cc == 'o':
                if of is None:
                    raise Und(cc)
                v = of
            else:
                if of is None or r is None:
                    raise Und(cc)
                v = X.xor(1, of, X.ext(r, w, w - 1, 1))
                if cc == 'le':
                    v = X.or_(1, v, X.eq(r, 0, w))
        return X.not1(v) if neg else v

    # ------------------------------------------------------------ operands
    def parse_op(self, s, nxt):
        s = s.strip()
        r = REGS.get(s)
        if r is not None:
            return ('r',) + r
        m = re.match(r'^(?:(BYTE|WORD|DWORD|QWORD) PTR )?\[(.*)\]$', s)
        if m:
            w = SZ[m.group(1)] if m.group(1) else 0
            base = None
            terms = []
            disp = 0
            for sg, t in re.findall(r'([+-]?)([^+-]+)', m.group(2)):
                if t.startswith('0x') or t.isdigit():
                    v = int(t, 0)
                    disp += -v if sg == '-' else v
                elif t == 'rip':
                    terms.append(('rip', 1))
                else:
                    if sg == '-':
                        raise RuntimeError('operand ' + s)
                    if '*' in t:
                        n, k = t.split('*')
                        terms.append((REGS[n][0], int(k)))
                    else:
                        if REGS[t][1] != 64:
                            raise RuntimeError('operand ' + s)
                        terms.append((REGS[t][0], 1))
            return ('m', w, terms, disp, nxt)
        if re.match(r'^(-?0x[0-9a-f]+|-?\d+)$', s):
            return ('i', int(s, 0))
        raise RuntimeError('operand ' + s)

    def addr(self, o):
        _, w, terms, disp, nxt = o
        if len(terms) == 1 and terms[0][1] == 1 and terms[0][0] != 'rip':
            b = terms[0][0]
            if disp == 0:
                return lambda R: R[b]
            d = disp & M64
            add = X.add

            def f1(R):
                v = R[b]
                if type(v) is int:
                    return (v + d) & M64
                return add(64, v, d)
            return f1
        if any(t[0] == 'rip' for t in terms):
            if len(terms) != 1:
                raise RuntimeError('rip operand')
            tgt = self.table + (nxt + disp - self.base_lab)
            return lambda R: tgt
        d = disp & M64

        def f(R):
            v = d
            for r, k in terms:
                v = X.add(64, v, X.mul(64, R[r], k) if k != 1 else R[r])
            return v
        return f

    def getter(self, o, w):
        """-> f(st, R)"""
        eng = self.eng
        if o[0] == 'r':
            _, i, rw, lo = o
            if rw == 64:
                return lambda st, R: R[i]
            ext = X.ext

            def g(st, R):
                return ext(R[i], 64, lo, rw)
            return g
        if o[0] == 'i':
            v = o[1] & mask(w)
            return lambda st, R: v
        a = self.addr(o)
        n = (o[1] or w) // 8
        return lambda st, R: eng.load(st, a(R), n)

    def setter(self, o, w):
        eng = self.eng
        if o[0] == 'r':
            _, i, rw, lo = o
            if rw == 64:
                def s64(st, R, v):
                    R[i] = v
                return s64
            if rw == 32:
                def s32(st, R, v):
                    R[i] = X.zext(v, 32, 64)
                return s32

            def s8(st, R, v):
                x = R[i]
                parts = []
                if lo:
                    parts.append((lo, X.ext(x, 64, 0, lo)))
                parts.append((rw, v))
                parts.append((64 - lo - rw, X.ext(x, 64, lo + rw, 64 - lo - rw)))
                R[i] = X.cat(parts)
            return s8
        a = self.addr(o)
        n = (o[1] or w) // 8

        def sm(st, R, v):
            eng.store(st, a(R), n, v)
        return sm

    @staticmethod
    def width(ops):
        for o in ops:
            if o[0] == 'r':
                return o[2]
        for o in ops:
            if o[0] == 'm' and o[1]:
                return o[1]
        raise RuntimeError('operand width')

    # ------------------------------------------------------------ compile
    def _compile_all(self):
        for k in range(len(self.ins)):
            self.ops[k] = self._lazy(k)

    def _lazy(self, k):
        def f(st, R):
            g = self.comp(k)
            self.ops[k] = g
            return g(st, R)
        return f

    def comp(self, k):
        from .engine import Unsupported
        a, n, t = self.ins[k]
        try:
            return self._comp(k, a, n, t)
        except (RuntimeError, KeyError, ValueError) as e:
            raise Unsupported('x86 %x: %s (%r)' % (a, t, e))

    def jump_target(self, s):
        return self.index[int(s.split()[0], 16)]

    def _comp(self, k, a, n, t):
        eng = self.eng
        nxt = a + n
        t = t.split('#')[0].strip()
        p = t.split(None, 1)
        mn = p[0]
        rest = p[1] if len(p) > 1 else ''
        nop = lambda st, R: None
        if mn in ('nop', 'nopw', 'nopl', 'prefetcht2', 'prefetcht0', 'prefetcht1', 'prefetchnta', 'endbr64', 'data16', 'cs'):
            return nop
        if mn == 'xchg' and rest in ('ax,ax',):
            return nop
        if mn in ('lock', 'rep', 'repz', 'repnz'):
            raise RuntimeError('prefix')
        if mn == 'jmp':
            m = re.match(r'^([0-9a-f]+)\b', rest)
            if m and (rest.endswith('>') or ' ' not in rest) and rest not in REGS and not rest.startswith(('QWORD',)):
                for q in range(a, nxt):
                    if q in self.rel:
                        raise RuntimeError('relocated jump')
                j = self.jump_target(rest)
                return lambda st, R: j
            g = self.getter(self.parse_op(rest, nxt), 64)

            def jind(st, R):
                v = g(st, R)
                if type(v) is not int:
                    v = eng.conc(st, v)
                off = v - self.table + self.base_lab
                j = self.index.get(off)
                if j is None:
                    eng.fault(st, 'oob', 'indirect jump to %#x' % v)
                self.executed.add(off)
                return j
            return jind
        if mn[0] == 'j' and mn[1:] in CC:
            cc = CC[mn[1:]]
            j = self.jump_target(rest)
            ft = k + 1

            def jcc(st, R):
                c = self.cond(cc, R[FL])
                if type(c) is int:
                    return j if c else None
                tk, o = eng.split(st, c)
                if o is not None:
                    fr = o.frames[-1]
                    fr.ip = ft if tk else j
                    eng.work.append(o)
                return j if tk else None
            return jcc
        if mn == 'call':
            sym = None
            for q in range(a, nxt):
                if q in self.rel:
                    sym = self.rel[q][1][0]
            if sym is None:
                raise RuntimeError('internal call')

            def call(st, R):
                from .engine import RELOAD
                args = [R[7], R[6], R[2], R[1]]
                h = eng.handler(sym)
                st.nsym += 1
                for i in (0, 1, 2, 6, 7, 8, 9, 10, 11):
                    R[i] = X.var('x86junk%d_%d' % (i, st.nsym), 64)
                R[FL] = ('u',)
                if h is not None:
                    r = h(st, args)
                    if r is not None:
                        R[0] = r
                    return None
                if sym not in eng.m.fn_pos:
                    from .engine import Unsupported
                    raise Unsupported('external function ' + sym)
                nargs = len(eng.fn(sym).params)
                eng.enter(st, sym, args[:nargs], None, None)
                return RELOAD
            return call
        if mn == 'ret':
            def ret(st, R):
                from .engine import RELOAD
                fr = st.frames[-1]
                sv = fr.extra
                if R[4] != sv.rsp or eng.load(st, R[4], 8) != RETMARK:
                    eng.fault(st, 'oob', 'x64: ret with corrupted stack')
                for i, v in zip((3, 5, 12, 13, 14, 15), sv.regs):
                    if R[i] is not v and R[i] != v:
                        if X.eq(R[i], v, 64) != 1:
                            eng.fault(st, 'oob', 'x64: callee-saved %s not preserved' % R64[i])
                st.frames.pop()
                for o in fr.allocas:
                    st.objs.pop(o, None)
                top = st.frames[-1]
                if fr.ret is not None:
                    top.R[fr.ret] = X.ext(R[0], 64, 0, 8)
                if fr.cont is not None:
                    eng.take(top, fr.cont)
                return RELOAD
            return ret
        if mn == 'push':
            o = self.parse_op(rest, nxt)
            g = self.getter(o, 64)

            def push(st, R):
                v = g(st, R)
                R[4] = sp = R[4] - 8
                eng.store(st, sp, 8, v)
            return push
        if mn == 'pop':
            o = self.parse_op(rest, nxt)
            s = self.setter(o, 64)

            def pop(st, R):
                sp = R[4]
                v = eng.load(st, sp, 8)
                R[4] = sp + 8
                s(st, R, v)
            return pop
        if mn == 'cqo':
            def cqo(st, R):
                R[2] = X.ashr(64, R[0], 63)
            return cqo
        if mn == 'cdq':
            def cdq(st, R):
                R[2] = X.zext(X.ashr(32, X.trunc(R[0], 64, 32), 31), 32, 64)
            return cdq
        ops = [self.parse_op(x, nxt) for x in rest.split(',')] if rest else []
        if mn in ('mov', 'movabs'):
            w = self.width(ops)
            s, g = self.setter(ops[0], w), self.getter(ops[1], w)
            if ops[0][0] == 'r' and ops[0][2] == 64 and ops[1][0] == 'm':
                i = ops[0][1]
                ad = self.addr(ops[1])

                def ld(st, R):
                    R[i] = eng.load(st, ad(R), 8)
                return ld

            def mov(st, R):
                s(st, R, g(st, R))
            return mov
        if mn == 'lea':
            s = self.setter(ops[0], 64)
            ad = self.addr(ops[1])
            w = ops[0][2]

            def lea(st, R):
                v = ad(R)
                s(st, R, v if w == 64 else X.trunc(v, 64, w))
            return lea
        if mn in ('movzx', 'movsx', 'movsxd'):
            w = self.width(ops[:1])
            w2 = self.width(ops[1:])
            s, g = self.setter(ops[0], w), self.getter(ops[1], w2)
            f = X.zext if mn == 'movzx' else X.sext

            def mx(st, R):
                s(st, R, f(g(st, R), w2, w))
            return mx
        if mn == 'xchg':
            w = self.width(ops)
            s0, g0 = self.setter(ops[0], w), self.getter(ops[0], w)
            s1, g1 = self.setter(ops[1], w), self.getter(ops[1], w)

            def xchg(st, R):
                x, y = g0(st, R), g1(st, R)
                s0(st, R, y)
                s1(st, R, x)
            return xchg
        if mn in ('add', 'sub', 'and', 'or', 'xor', 'cmp', 'test', 'adc', 'sbb'):
            w = self.width(ops)
            s, g0, g1 = self.setter(ops[0], w), self.getter(ops[0], w), self.getter(ops[1], w)
            if mn in ('cmp', 'sub'):
                wr = mn == 'sub'
                if ops[0] == ops[1] and wr:
                    def zero(st, R):
                        s(st, R, 0)
                        R[FL] = ('x', w, 0, 0, 0)
                    return zero

                def sub(st, R):
                    x, y = g0(st, R), g1(st, R)
                    r = X.sub(w, x, y)
                    R[FL] = ('sub', w, x, y, r)
                    if wr:
                        s(st, R, r)
                return sub
            if mn in ('and', 'or', 'xor', 'test'):
                f = {'and': X.and_, 'test': X.and_, 'or': X.or_, 'xor': X.xor}[mn]
                wr = mn != 'test'
                z = mn == 'xor' and ops[0] == ops[1]

                def lg(st, R):
                    r = 0 if z else f(w, g0(st, R), g1(st, R))
                    R[FL] = ('x', w, r, 0, 0)
                    if wr:
                        s(st, R, r)
                return lg
            if mn == 'add':
                def add(st, R):
                    x, y = g0(st, R), g1(st, R)
                    r = X.add(w, x, y)
                    R[FL] = ('x', w, r, Lz(lambda: X.ult(r, x, w)), Lz(lambda: add_of(w, x, y, r)))
                    s(st, R, r)
                return add
            sbb = mn == 'sbb'

            def adc(st, R):
                x, y = g0(st, R), g1(st, R)
                c = self.cond('b', R[FL])
                cw = X.zext(c, 1, w)
                if sbb:
                    r = X.sub(w, X.sub(w, x, y), cw)
                    big = X.ext(X.sub(w + 1, X.sub(w + 1, X.zext(x, w, w + 1), X.zext(y, w, w + 1)), X.zext(c, 1, w + 1)), w + 1, w, 1)
                else:
                    r = X.add(w, X.add(w, x, y), cw)
                    big = X.ext(X.add(w + 1, X.add(w + 1, X.zext(x, w, w + 1), X.zext(y, w, w + 1)), X.zext(c, 1, w + 1)), w + 1, w, 1)
                R[FL] = ('x', w, r, big, None)
                s(st, R, r)
            return adc
        if mn in ('inc', 'dec'):
            w = self.width(ops)
            s, g = self.setter(ops[0], w), self.getter(ops[0], w)
            dl = 1 if mn == 'inc' else mask(w)

            def inc(st, R):
                try:
                    c = self.cond('b', R[FL])
                except Und:
                    c = None
                r = X.add(w, g(st, R), dl)
                R[FL] = ('x', w, r, c, None)
                s(st, R, r)
            return inc
        if mn == 'neg':
            w = self.width(ops)
            s, g = self.setter(ops[0], w), self.getter(ops[0], w)

            def neg(st, R):
                x = g(st, R)
                r = X.neg(w, x)
                R[FL] = ('sub', w, 0, x, r)
                s(st, R, r)
            return neg
        if mn == 'not':
            w = self.width(ops)
            s, g = self.setter(ops[0], w), self.getter(ops[0], w)

            def not_(st, R):
                s(st, R, X.not_(w, g(st, R)))
            return not_
        if mn in ('shl', 'sal', 'shr', 'sar', 'rol', 'ror', 'rcl', 'rcr'):
            w = self.width(ops[:1])
            s, g = self.setter(ops[0], w), self.getter(ops[0], w)
            gc = self.getter(ops[1], 8) if len(ops) > 1 else (lambda st, R: 1)
            m = 63 if w == 64 else 31

            def sh(st, R):
                x, c = g(st, R), gc(st, R)
                c = X.and_(8, c, m)
                if mn in ('rcl', 'rcr'):
                    if c != 1:
                        raise RuntimeError('rcl count')
                    cf = self.cond('b', R[FL])
                    if mn == 'rcl':
                        r = X.cat([(1, cf), (w - 1, X.ext(x, w, 0, w - 1))])
                        R[FL] = ('x', w, None, X.ext(x, w, w - 1, 1), None)
                    else:
                        r = X.cat([(w - 1, X.ext(x, w, 1, w - 1)), (1, cf)])
                        R[FL] = ('x', w, None, X.ext(x, w, 0, 1), None)
                    s(st, R, r)
                    return
                if type(c) is int and c == 0:
                    s(st, R, x)
                    return
                cw = X.zext(c, 8, w) if w > 8 else c
                if mn in ('shl', 'sal'):
                    r = X.shl(w, x, cw)
                elif mn == 'shr':
                    r = X.lshr(w, x, cw)
                elif mn == 'sar':
                    r = X.ashr(w, x, cw)
                elif mn == 'rol':
                    r = X.ubin_fshl(w, x, x, cw)
                else:
                    r = X.fshr(w, x, x, cw)
                if type(c) is int and c < w:
                    if mn in ('shl', 'sal'):
                        cf = X.ext(x, w, w - c, 1)
                    elif mn in ('shr', 'sar'):
                        cf = X.ext(x, w, c - 1, 1)
                    else:
                        cf = None
                    R[FL] = ('x', w, r if mn[0] == 's' else None, cf, None)
                else:
                    R[FL] = ('u',)
                s(st, R, r)
            return sh
        if mn == 'imul' and len(ops) >= 2:
            w = self.width(ops)
            s = self.setter(ops[0], w)
            g0, g1 = self.getter(ops[-2], w), self.getter(ops[-1], w)

            def imul(st, R):
                s(st, R, X.mul(w, g0(st, R), g1(st, R)))
                R[FL] = ('u',)
            return imul
        if mn in ('mul', 'imul'):
            w = self.width(ops)
            if w != 64:
                raise RuntimeError('mul width')
            g = self.getter(ops[0], w)
            ex = X.zext if mn == 'mul' else X.sext

            def mul(st, R):
                r = X.mul(128, ex(R[0], 64, 128), ex(g(st, R), 64, 128))
                R[0] = X.ext(r, 128, 0, 64)
                R[2] = X.ext(r, 128, 64, 64)
                R[FL] = ('u',)
            return mul
        if mn in ('div', 'idiv'):
            w = self.width(ops)
            if w != 64:
                raise RuntimeError('div width')
            g = self.getter(ops[0], w)

            def div(st, R):
                y = g(st, R)
                z = X.eq(y, 0, 64)
                k = eng.decide(st, z)
                if k or k is None:
                    m = st.model
                    if k is None:
                        _, m = eng.solver.check(st.pc, z)
                    eng.violation(st, 'panic', 'x64: division by zero', m)
                    if k:
                        from .engine import EndPath
                        raise EndPath('panic')
                    eng.assume(st, X.not1(z))
                if mn == 'div':
                    if R[2] != 0:
                        raise RuntimeError('div with rdx')
                    q, r = X.udiv(64, R[0], y), X.urem(64, R[0], y)
                else:
                    if X.eq(R[2], X.ashr(64, R[0], 63), 64) != 1:
                        raise RuntimeError('idiv with rdx')
                    ov = X.and_(1, X.eq(R[0], 1 << 63, 64), X.eq(y, M64, 64))
                    k = eng.decide(st, ov)
                    if k or k is None:
                        m = st.model
                        if k is None:
                            _, m = eng.solver.check(st.pc, ov)
                        eng.violation(st, 'panic', 'x64: division overflow', m)
                        if k:
                            from .engine import EndPath
                            raise EndPath('panic')
                        eng.assume(st, X.not1(ov))
                    q, r = X.sdiv(64, R[0], y), X.srem(64, R[0], y)
                R[0] = q
                R[2] = r
                R[FL] = ('u',)
            return div
        if mn in ('bsf', 'bsr', 'tzcnt', 'lzcnt', 'popcnt'):
            w = self.width(ops)
            s, g = self.setter(ops[0], w), self.getter(ops[1], w)
            g0 = self.getter(ops[0], w)

            def bs(st, R):
                x = g(st, R)
                if mn == 'popcnt':
                    s(st, R, X.ctpop(w, x))
                    R[FL] = ('u',)
                    return
                if mn == 'tzcnt':
                    s(st, R, X.cttz(w, x))
                    R[FL] = ('u',)
                    return
                if mn == 'lzcnt':
                    s(st, R, X.ctlz(w, x))
                    R[FL] = ('u',)
                    return
                r = X.cttz(w, x) if mn == 'bsf' else X.sub(w, w - 1, X.ctlz(w, x))
                z = X.eq(x, 0, w)
                # destination is unchanged (Intel: undefined, in practice preserved) when the source is zero
                old = g0(st, R)
                s(st, R, X.ite(z, old, r, w))
                R[FL] = ('x', w, x, None, None)
            return bs
        if mn.startswith('cmov') and mn[4:] in CC:
            w = self.width(ops)
            s, g0, g1 = self.setter(ops[0], w), self.getter(ops[0], w), self.getter(ops[1], w)
            cc = CC[mn[4:]]

            def cmov(st, R):
                c = self.cond(cc, R[FL])
                s(st, R, X.ite(c, g1(st, R), g0(st, R), w))
            return cmov
        if mn.startswith('set') and mn[3:] in CC:
            s = self.setter(ops[0], 8)
            cc = CC[mn[3:]]

            def setc(st, R):
                s(st, R, X.zext(self.cond(cc, R[FL]), 1, 8))
            return setc
        if mn == 'bswap':
            w = self.width(ops)
            s, g = self.setter(ops[0], w), self.getter(ops[0], w)

            def bsw(st, R):
                s(st, R, X.bswap(w, g(st, R)))
            return bsw
        if mn == 'bt' or mn == 'btr' or mn == 'bts' or mn == 'btc':
            w = self.width(ops[:1])
            if ops[0][0] != 'r':
                raise RuntimeError('bt memory')
            s, g0, g1 = self.setter(ops[0], w), self.getter(ops[0], w), self.getter(ops[1], w)

            def bt(st, R):
                x = g0(st, R)
                i = X.and_(w, g1(st, R), w - 1)
                R[FL] = ('x', w, None, X.ext(X.lshr(w, x, i), w, 0, 1), None)
                b = X.shl(w, 1, i)
                if mn == 'btr':
                    s(st, R, X.and_(w, x, X.not_(w, b)))
                elif mn == 'bts':
                    s(st, R, X.or_(w, x, b))
                elif mn == 'btc':
                    s(st, R, X.xor(w, x, b))
            return bt
        raise RuntimeError('unknown mnemonic')


class Und(RuntimeError):
    def __init__(self, cc):
        RuntimeError.__init__(self, 'x64: branch on an undefined flag (%s)' % cc)


class Lz(object):
    """a lazily computed flag"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


def add_of(w, x, y, r):
    return X.ext(X.and_(w, X.xor(w, x, r), X.xor(w, y, r)), w, w - 1, 1)


class Saved(object):
    __slots__ = ('regs', 'rsp')

    def __init__(self, regs, rsp):
        self.regs = regs
        self.rsp = rsp

    def copy(self):
        return self
