"""LLVM-IR (textual, LLVM 18) front end: lazy module index, types, constants, function bodies."""
import re

TOK = re.compile(r'''c"(?:[^"\\]|\\.)*"|[@%]"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[@%][-\w$.]+|!\w+|\#\d+|-?\d+(?:\.\d+)?(?:e[+-]?\d+)?|[A-Za-z_][\w.]*|\.\.\.|[<>{}()\[\],=*]|:|!''')


def toks(line):
    return TOK.findall(line)


class IntT(object):
    def __init__(s, w):
        s.w = w
        s.size = (w + 7) // 8 if w != 1 else 1
        # alloc size rounds to power of two up to 8/16
        a = 1
        while a < s.size and a < 16:
            a *= 2
        s.align = min(a, 16)
        s.alloc = (s.size + s.align - 1) // s.align * s.align
    kind = 'int'


class PtrT(object):
    kind = 'ptr'
    w = 64
    size = 8
    align = 8
    alloc = 8


class VoidT(object):
    kind = 'void'
    size = 0
    w = 0
    alloc = 0
    align = 1


class ArrT(object):
    kind = 'arr'

    def __init__(s, n, el):
        s.n = n
        s.el = el
        s.alloc = s.size = n * el.alloc
        s.align = el.align


class StructT(object):
    kind = 'struct'

    def __init__(s, els, packed):
        s.els = els
        s.offs = []
        p = 0
        al = 1
        for e in els:
            if not packed:
                p = (p + e.align - 1) // e.align * e.align
                al = max(al, e.align)
            s.offs.append(p)
            p += e.alloc
        s.align = al
        s.alloc = s.size = (p + al - 1) // al * al


class VecT(object):
    kind = 'vec'

    def __init__(s, n, el):
        s.n = n
        s.el = el
        s.w = n * el.w
        s.size = (n * el.w + 7) // 8
        s.alloc = s.align = max(1, 1 << (s.size - 1).bit_length())


VOID = VoidT()
PTR = PtrT()
_ints = {}


def intt(w):
    r = _ints.get(w)
    if r is None:
        r = _ints[w] = IntT(w)
    return r


class P(object):
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(s, t, m):
        s.t = t
        s.i = 0
        s.m = m

    def peek(s):
        return s.t[s.i] if s.i < len(s.t) else None

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def eat(s, x):
        if s.i < len(s.t) and s.t[s.i] == x:
            s.i += 1
            return True
        return False

    def want(s, x):
        if s.t[s.i] != x:
            raise SyntaxError('want %s at %s' % (x, s.t[max(0, s.i - 5):s.i + 8]))
        s.i += 1


_it = re.compile(r'i(\d+)$')


def is_type(t):
    return bool(_it.match(t)) or t in ('ptr', 'void', '{', '<', '[', 'label', 'metadata', 'float', 'double', 'half', 'opaque')


def ptype(p):
    t = p.next()
    m = _it.match(t)
    if m:
        return intt(int(m.group(1)))
    if t == 'ptr':
        return PTR
    if t == 'void':
        return VOID
    if t == 'float':
        return intt(32)
    if t == 'double':
        return intt(64)
    if t == '[':
        n = int(p.next())
        p.want('x')
        e = ptype(p)
        p.want(']')
        return ArrT(n, e)
    if t == '<':
        if p.peek() == '{':
            p.next()
            e = _tlist(p)
            p.want('>')
            return StructT(e, True)
        n = int(p.next())
        p.want('x')
        e = ptype(p)
        p.want('>')
        return VecT(n, e)
    if t == '{':
        return StructT(_tlist(p), False)
    if t[0] == '%':
        return p.m.named_type(t)
    raise SyntaxError('type %s in %s' % (t, p.t))


def _tlist(p):
    e = []
    if p.eat('}'):
        return e
    while True:
        e.append(ptype(p))
        if p.eat('}'):
            return e
        p.want(',')


ATTR1 = set('''noundef nonnull zeroext signext inreg noalias nocapture nofree readonly readnone writeonly immarg returned
 swiftself nest sret byval inalloca allocptr allocalign dead_on_unwind writable'''.split())


def skip_attrs(p):
    while True:
        t = p.peek()
        if t in ATTR1:
            p.next()
            if p.peek() == '(':
                _parens(p)
        elif t in ('align',):
            p.next()
            if p.peek() == '(':
                _parens(p)
            else:
                p.next()
        elif t in ('dereferenceable', 'dereferenceable_or_null', 'range', 'sret', 'byval', 'captures', 'initializes', 'nofpclass', 'memory', 'elementtype'):
            p.next()
            if p.peek() == '(':
                _parens(p)
        else:
            return


def _parens(p):
    p.want('(')
    d = 1
    while d:
        x = p.next()
        if x == '(':
            d += 1
        elif x == ')':
            d -= 1


def unq(n):
    if n[1] == '"':
        return n[0] + n[2:-1]
    return n


class Module(object):
    def __init__(self, path):
        self.path = path
        txt = open(path, encoding='utf-8', errors='surrogateescape').read()
        self.txt = txt
        self.fn_pos = {}
        self.globals = {}
        self.types = {}
        self.decls = {}
        self.aliases = {}
        pos = 0
        name_re = re.compile(r'(@"[^"]*"|@[-\w$.]+)\(')
        gre = re.compile(r'^(@"[^"]*"|@[-\w$.]+) = ', re.M)
        for m in re.finditer(r'^define .*$', txt, re.M):
            mm = name_re.search(m.group(0))
            self.fn_pos[unq(mm.group(1))[1:]] = m.start()
        for m in re.finditer(r'^declare .*$', txt, re.M):
            mm = name_re.search(m.group(0))
            self.decls[unq(mm.group(1))[1:]] = m.group(0)
        for m in re.finditer(r'^(@"[^"]*"|@[-\w$.]+) = (.*)$', txt, re.M):
            self.globals[unq(m.group(1))[1:]] = m.group(2)
        for m in re.finditer(r'^(%"[^"]*"|%[-\w$.]+) = type (.*)$', txt, re.M):
            self.types[unq(m.group(1))] = m.group(2)
        self._tcache = {}

    def named_type(self, n):
        n = unq(n)
        r = self._tcache.get(n)
        if r is None:
            r = self._tcache[n] = ptype(P(toks(self.types[n]), self))
        return r

    def fn_text(self, name):
        s = self.fn_pos[name]
        e = self.txt.index('\n}', s)
        return self.txt[s:e]

    def find(self, pat):
        r = re.compile(pat)
        return [n for n in self.fn_pos if r.search(n)]
