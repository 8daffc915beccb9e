"""Parallel exploration: a process that has spare pending states forks a helper for half of them."""
import errno
import mmap
import os
import pickle
import sys
import tempfile
import time
import traceback
from .engine import EndPath, Inconclusive, Unsupported

NCPU = int(os.environ.get('CKBSYM_JOBS', '8'))


class Result(object):
    def __init__(self):
        self.paths = []         # (entry, kind, msg, inputs, observed, reached, choices)
        self.kinds = {}
        self.violations = []
        self.inconclusive = []
        self.stats = {}
        self.fns = set()
        self.asserts = {}
        self.reach = {}
        self.entry_stats = {}
        self.x86 = set()


def explore(eng, states, deadline, maxrec=3000, maxviol=4, ignore=None):
    """states: list of State (each with .entry). Returns merged Result"""
    tmp = tempfile.mkdtemp(prefix='ckbsym')
    tr, tw = os.pipe()
    os.set_blocking(tr, False)
    os.write(tw, b't' * (NCPU - 1))
    ar, aw = os.pipe()
    stop = mmap.mmap(-1, 16)
    eng.deadline = deadline
    eng.work = list(states)
    root = os.getpid()
    me = {'child': False, 'last': time.time()}
    res = [Result()]

    def rec(st, kind, msg):
        r = res[0]
        key = (st.entry, kind)
        r.kinds[key] = r.kinds.get(key, 0) + 1
        es = r.entry_stats.setdefault(st.entry, [0, 0])
        es[0] += 1
        es[1] += st.steps
        for x in set(st.reached):
            r.reach[(st.entry, x)] = r.reach.get((st.entry, x), 0) + 1
        if len(r.paths) < maxrec or (hash((eng.npaths, os.getpid())) % 16 == 0 and len(r.paths) < 2 * maxrec):
            try:
                m = st.model
                obs = [o if type(o) is int else m.ev(o) for o in st.observed]
                r.paths.append((st.entry, kind, msg, eng.ser_inputs(st, m), obs, list(st.reached), list(st.choices)))
            except Exception as e:  # noqa
                r.inconclusive.append('record: %r' % e)
    eng.on_finish = rec

    def dump():
        r = res[0]
        s = eng.solver
        r.violations = eng.violations
        r.inconclusive += eng.inconclusive
        r.fns = set(eng.ncomp)
        r.asserts = dict(eng.assert_ids)
        if eng.asm is not None:
            r.x86 = set(eng.asm.executed)
        r.stats = {'queries': s.queries, 'sat': s.sat, 'unsat': s.unsat, 'unknown': s.unknown, 'hard': s.hard,
                   'time': s.time, 'maxq': s.maxq, 'paths': eng.npaths, 'steps': eng.steps, 'nassert': eng.nassert,
                   'forks': eng.nforks}
        return r

    def reset():
        s = eng.solver
        s.queries = s.sat = s.unsat = s.unknown = s.hard = 0
        s.time = s.maxq = 0.0
        eng.npaths = eng.steps = eng.nassert = eng.nforks = 0
        eng.violations = []
        eng.inconclusive = []
        eng.assert_ids = {}
        res[0] = Result()
    eng.nforks = 0

    def loop():
        while eng.work:
            if stop[0]:
                break
            if time.time() > deadline:
                eng.inconclusive.append('deadline: %d pending states in %s' % (len(eng.work), sorted(set(s.entry for s in eng.work))))
                stop[0] = 1
                break
            if len(eng.work) >= 2 and NCPU > 1 and time.time() - me['last'] > 0.05:
                try:
                    t = os.read(tr, 1)
                except BlockingIOError:
                    t = b''
                if t:
                    me['last'] = time.time()
                    sys.stdout.flush()
                    half = eng.work[0::2]
                    rest = eng.work[1::2]
                    pid = os.fork()
                    if pid == 0:
                        me['child'] = True
                        open('%s/%d.start' % (tmp, os.getpid()), 'w').close()
                        try:
                            os.close(ar)
                        except OSError:
                            pass
                        reset()
                        eng.work = half
                        me['last'] = time.time()
                        continue
                    eng.work = rest
                    me.setdefault('kids', []).append(pid)
            st = eng.work.pop()
            eng.nforks += 1
            try:
                eng.run(st)
            except (Inconclusive, Unsupported) as e:
                eng.inconclusive.append('%s: %s [%s] %s' % (type(e).__name__, e, st.entry, where(st)))
            except RecursionError as e:
                eng.inconclusive.append('recursion [%s] %s' % (st.entry, where(st)))
            except Exception as e:  # noqa
                tb = traceback.format_exc().strip().split('\n')
                eng.inconclusive.append('engine error %r [%s] %s | %s' % (e, st.entry, where(st), ' / '.join(x.strip() for x in tb[-7:])[:900]))
            if len(eng.violations) >= maxviol and sum(1 for v in eng.violations if not (ignore and ignore(v))) >= maxviol or len(eng.inconclusive) > 20:
                stop[0] = 1
            if me.get('kids'):
                reap(me)

    def reap(me):
        try:
            while True:
                p, s = os.waitpid(-1, os.WNOHANG)
                if p == 0:
                    break
        except ChildProcessError:
            pass
    try:
        loop()
    except BaseException as e:  # noqa
        eng.inconclusive.append('engine died: %r' % (e,))
    if os.getpid() != root:
        try:
            with open('%s/%d' % (tmp, os.getpid()), 'wb') as f:
                pickle.dump(dump(), f)
            os.write(tw, b't')
        finally:
            os._exit(0)
    out = [dump()]
    os.close(aw)
    while True:
        b = os.read(ar, 1)
        if not b:
            break
    reap(me)
    n = 0
    names = os.listdir(tmp)
    for f in names:
        if f.endswith('.start'):
            if f[:-6] not in names:
                out[0].inconclusive.append('helper process %s lost (out of memory?)' % f[:-6])
            os.unlink(os.path.join(tmp, f))
            continue
        try:
            with open(os.path.join(tmp, f), 'rb') as fh:
                out.append(pickle.load(fh))
        except Exception as e:  # noqa
            out[0].inconclusive.append('helper result lost: %r' % (e,))
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    os.close(ar)
    os.close(tr)
    os.close(tw)
    return merge(out)


def where(st):
    return '>'.join((f.fn.name if f.fn is not None else 'x64')[-60:] for f in st.frames[-3:])


def merge(rs):
    o = Result()
    for r in rs:
        o.paths += r.paths
        o.violations += r.violations
        o.inconclusive += r.inconclusive
        o.fns |= r.fns
        o.x86 |= r.x86
        for src, dst in ((r.kinds, o.kinds), (r.asserts, o.asserts), (r.reach, o.reach)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        for k, v in r.entry_stats.items():
            e = o.entry_stats.setdefault(k, [0, 0])
            e[0] += v[0]
            e[1] += v[1]
        for k, v in r.stats.items():
            if k == 'maxq':
                o.stats[k] = max(o.stats.get(k, 0), v)
            else:
                o.stats[k] = o.stats.get(k, 0) + v
    return o
