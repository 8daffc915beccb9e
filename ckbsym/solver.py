"""z3 front end: incremental stack for path feasibility, one-shot for hard queries."""
import time
import z3
from . import expr as X


class Solver(object):
    def __init__(self, quick_ms=4000, hard_ms=120000):
        self.quick_ms = quick_ms
        self.hard_ms = hard_ms
        self.s = z3.SolverFor('QF_AUFBV')
        self.s.set('timeout', quick_ms)
        self.stack = []
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.hard = 0
        self.time = 0.0
        self.maxq = 0.0

    def _sync(self, pc):
        st = self.stack
        n = min(len(st), len(pc))
        i = 0
        while i < n and st[i] is pc[i]:
            i += 1
        if len(st) > i:
            self.s.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            self.s.push()
            self.s.add(X.tobool(c))
            st.append(c)

    def check(self, pc, cond, want_model=True, budget_ms=None, goal=False):
        """is pc & cond satisfiable -> ('sat', Model) | ('unsat', None) | ('unknown', None)"""
        if type(cond) is int:
            if cond == 0:
                return 'unsat', None
        t0 = time.time()
        self.queries += 1
        m = None
        r = None
        if type(cond) is not int and (nonlin(cond) or goal and hasdef(cond)):
            r = self._abstract(slice_(pc, cond), cond, 3000)
        if r != z3.unsat:
            self._sync(pc)
            zc = X.tobool(cond)
            self.s.push()
            self.s.add(zc)
            r = self.s.check()
            if r == z3.sat:
                m = self._model(self.s.model(), list(pc) + [cond])
            self.s.pop()
        if r == z3.unknown:
            r, m = self._hard(pc, cond, budget_ms or self.hard_ms)
        dt = time.time() - t0
        self.time += dt
        if dt > self.maxq:
            self.maxq = dt
        if r == z3.sat:
            # the model must really satisfy the query (guards the conversion layer)
            if any(m.ev(c) != 1 for c in pc) or m.ev(cond) != 1:
                self.unknown += 1
                return 'unknown', None
            self.sat += 1
            return 'sat', m
        if r == z3.unsat:
            self.unsat += 1
            return 'unsat', None
        self.unknown += 1
        return 'unknown', None

    def _hard(self, pc, cond, ms):
        self.hard += 1
        cs = slice_(pc, cond)
        r = self._abstract(cs, cond, min(ms // 3, 20000))
        if r == z3.unsat:
            return r, None
        arr = any(has_sel(c) for c in cs + [cond])
        for tac in (('qfaufbv' if arr else 'qfbv'), 'smt'):
            s = z3.Tactic(tac).solver()
            s.set('timeout', int(ms / 2))
            for c in cs:
                s.add(X.tobool(c))
            s.add(X.tobool(cond))
            r = s.check()
            if r == z3.sat:
                # slices are independent: need a model of the rest too
                if len(cs) != len(pc):
                    rest = [c for c in pc if c not in set(cs)]
                    m1 = self._model(s.model(), cs + [cond])
                    s2 = z3.Solver()
                    s2.set('timeout', int(ms / 2))
                    for c in rest:
                        s2.add(X.tobool(c))
                    if s2.check() == z3.sat:
                        m2 = self._model(s2.model(), rest)
                        m2.vars.update(m1.vars)
                        for k, v in m1.arrs.items():
                            m2.arrs.setdefault(k, {}).update(v)
                        return r, X.Model(m2.vars, m2.arrs)
                    return z3.unknown, None
                return r, self._model(s.model(), cs + [cond])
            if r == z3.unsat:
                return r, None
        return z3.unknown, None

    def _abstract(self, cs, cond, ms):
        """products and divisions as unconstrained values: unsat carries over"""
        nl = [e for e in _nonlinear(cs + [cond])]
        if not nl:
            return None
        sub = [(X.conv(e), z3.BitVec('!nl%d' % e.id, e.w)) for e in nl]
        s = z3.Tactic('qfaufbv').solver() if any(has_sel(c) for c in cs + [cond]) else z3.Tactic('qfbv').solver()
        s.set('timeout', int(ms))
        for c in cs + [cond]:
            s.add(z3.substitute(X.tobool(c), *sub))
        return s.check()

    def _model(self, m, conds):
        vs = {}
        ar = {}
        seen = set()
        stack = [c for c in conds if type(c) is not int]
        sels = []
        while stack:
            e = stack.pop()
            if e in seen:
                continue
            seen.add(e)
            if e.op == 'var':
                v = m.eval(X.conv(e), model_completion=True)
                vs[e.a[0]] = (1 if z3.is_true(v) else 0) if e.w == 1 else v.as_long()
            else:
                if e.op == 'sel':
                    sels.append(e)
                stack.extend(X.kids(e))
        for e in sels:
            ix = e.a[1]
            iv = ix if type(ix) is int else m.eval(X.tobv(ix), model_completion=True).as_long()
            vv = m.eval(X.conv(e), model_completion=True).as_long()
            ar.setdefault(e.a[0].name, {})[iv] = vv
        return X.Model(vs, ar)


_NL = ('mul', 'udiv', 'urem')


def _nonlinear(conds, ops=_NL + ('def',)):
    seen = set()
    stack = [c for c in conds if type(c) is not int]
    while stack:
        e = stack.pop()
        if e in seen:
            continue
        seen.add(e)
        if e.op in ops:
            yield e
            continue
        stack.extend(X.kids(e))


_fv = {}


def free(e):
    """frozenset of variable / array names"""
    r = _fv.get(e)
    if r is not None:
        return r
    stack = [e]
    while stack:
        x = stack[-1]
        if x in _fv:
            stack.pop()
            continue
        ks = X.kids(x)
        todo = [k for k in ks if k not in _fv]
        if todo:
            stack.extend(todo)
            continue
        s = set()
        for k in ks:
            s |= _fv[k]
        if x.op == 'var':
            s.add(x.a[0])
        elif x.op == 'sel':
            s.add('[]' + x.a[0].name)
        _fv[x] = frozenset(s)
        stack.pop()
    return _fv[e]


_nl = {}


def nonlin(e):
    r = _nl.get(e)
    if r is None:
        r = _nl[e] = next(_nonlinear([e], _NL), None) is not None
    return r


_hd = {}


def hasdef(e):
    r = _hd.get(e)
    if r is None:
        r = _hd[e] = next(_nonlinear([e], ('def',)), None) is not None
    return r


def has_sel(e):
    return type(e) is not int and any(n.startswith('[]') for n in free(e))


def slice_(pc, cond):
    if type(cond) is int:
        return list(pc)
    need = set(free(cond))
    left = list(pc)
    out = []
    ch = True
    while ch:
        ch = False
        rest = []
        for c in left:
            if free(c) & need:
                need |= free(c)
                out.append(c)
                ch = True
            else:
                rest.append(c)
        left = rest
    return out
