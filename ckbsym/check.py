"""Driver: build the harness from /repo's working tree, explore symbolically, replay natively, report."""
import argparse
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CKBSYM_REPO', '/repo')
TARGET = os.environ.get('CKBSYM_TARGET', os.path.join(ROOT, 'target'))
HARNESS = os.path.join(ROOT, 'harness')


def log(*a):
    print('[ckbsym %6.1f]' % (time.time() - T0), *a, flush=True)


T0 = time.time()


def build(outdir):
    """cargo build of the harness crate against /repo; returns paths of the IR, the library and the asm object"""
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN='1.81.0', CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true',
               RUSTFLAGS='-C no-vectorize-loops -C no-vectorize-slp')
    for k in ('RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'):
        env.pop(k, None)
    hdir = HARNESS
    if REPO != '/repo':
        hdir = os.path.join(outdir, 'h')
        shutil.copytree(HARNESS, hdir, ignore=shutil.ignore_patterns('target'))
        p = os.path.join(hdir, 'Cargo.toml')
        s = open(p).read().replace('"/repo', '"' + REPO)
        open(p, 'w').write(s)
    with open(os.path.join(TARGET, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['cargo', 'rustc', '--release', '--offline', '--locked', '--message-format=json', '--', '--emit=llvm-ir,link'],
                           cwd=hdir, env=env, capture_output=True, text=True)
        if r.returncode:
            errs = []
            for l in r.stdout.split('\n'):
                if '"level":"error"' in l:
                    try:
                        errs.append(json.loads(l)['message']['rendered'])
                    except Exception:
                        pass
            sys.stdout.write('\n'.join(errs)[-6000:] + r.stderr[-3000:] + '\n')
            raise SystemExit('harness build failed')
        outd = None
        for l in r.stdout.split('\n'):
            if '"build-script-executed"' in l:
                j = json.loads(l)
                if re.search(r'(^|/)ckb-vm[ #@]|#ckb-vm@|/repo#', j['package_id']) or '#ckb-vm@' in j['package_id'] \
                        or glob.glob(j['out_dir'] + '/*execute_x64.o'):
                    outd = j['out_dir']
        objs = sorted(glob.glob(outd + '/*execute_x64.o'), key=os.path.getmtime) if outd else []
        if not objs:
            raise SystemExit('no assembled interpreter found')
        dd = os.path.join(TARGET, 'release', 'deps')
        ll, so, ob = [os.path.join(outdir, x) for x in ('harness.ll', 'libharness.so', 'execute_x64.o')]
        shutil.copy(os.path.join(dd, 'harness.ll'), ll)
        shutil.copy(os.path.join(dd, 'libharness.so'), so)
        shutil.copy(objs[-1], ob)
    rn = os.path.join(outdir, 'runner')
    subprocess.run(['gcc', '-O1', '-rdynamic', '-o', rn, os.path.join(ROOT, 'ckbsym', 'runner.c'), '-ldl'], check=True)
    return ll, so, ob, rn


def ser(entry, inputs):
    out = ['H ' + entry]
    for it in inputs:
        if it[0] == 'v':
            out.append('v %d' % it[1])
        else:
            _, gran, ln, kv = it
            out.append('a %d %d %d %s' % (gran, ln, len(kv), ' '.join('%d %d' % p for p in kv)))
    out.append('G')
    return '\n'.join(out) + '\n'


def replay(rn, so, vecs, tier, timeout=300):
    """vecs: [(entry, inputs)] -> list of (obs, reached, failed, crash, assumed)"""
    n = int(os.environ.get('CKBSYM_JOBS', '8'))
    chunks = [vecs[i::n] for i in range(n)]
    procs = []
    for c in chunks:
        f = tempfile.TemporaryFile('w+')
        f.write(''.join(ser(e, i) for e, i in c))
        f.seek(0)
        o = tempfile.TemporaryFile('w+')
        procs.append((subprocess.Popen([rn, so, str(tier)], stdin=f, stdout=o, stderr=subprocess.DEVNULL), o))
    outs = []
    for p, o in procs:
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
        o.seek(0)
        res = []
        for l in o:
            l = l.strip()
            if l.startswith('#'):
                res.append(([], [], [], None, False, []))
                cur = res[-1]
                obs, re_, fa, cr, asm, end = [], [], [], [], [], []
                res[-1] = (obs, re_, fa, cr, asm, end)
            elif l.startswith('O '):
                obs.append(int(l[2:], 16))
            elif l.startswith('R '):
                re_.append(int(l[2:]))
            elif l.startswith('F '):
                fa.append(int(l[2:]))
            elif l == 'A':
                asm.append(1)
            elif l.startswith('X '):
                cr.append(l[2:])
            elif l == 'END':
                end.append(1)
        outs.append(res)
    r = [None] * len(vecs)
    for i in range(len(vecs)):
        o = outs[i % n]
        if i // n < len(o):
            r[i] = o[i // n]
    return r


def demangle(n):
    m = re.match(r'^_ZN(.*)17h[0-9a-f]{16}E$', n)
    if not m:
        return n
    s = m.group(1)
    out = []
    while s:
        k = re.match(r'^(\d+)', s)
        if not k:
            break
        ln = int(k.group(1))
        s = s[len(k.group(1)):]
        out.append(s[:ln])
        s = s[ln:]
    return '::'.join(out).replace('$LT$', '<').replace('$GT$', '>').replace('$u20$', ' ').replace('..', '::').replace('$RF$', '&')\
        .replace('$C$', ',').replace('$u7b$', '{').replace('$u7d$', '}').replace('$BP$', '*')


def assert_text():
    """assertion id -> text, from the harness sources:   chk!(1234, cond, "text")"""
    out = {}
    for f in glob.glob(os.path.join(HARNESS, 'src', '*.rs')):
        s = open(f).read()
        for m in re.finditer(r'chk!\(\s*(\d+)\s*,', s):
            line = s.count('\n', 0, m.start()) + 1
            t = s[m.end():m.end() + 300].split(');')[0]
            q = re.findall(r'"([^"]*)"', t)
            out[int(m.group(1))] = '%s:%d %s' % (os.path.basename(f), line, q[-1] if q else '')
    return out


def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status', 'open') == 'open']


def kf_match(k, v):
    """a known finding names the entry, the kind, the message and (optionally) constraints on the inputs"""
    if k['entry'] != v['entry'] or k['kind'] != v['kind']:
        return False
    if 'msg' in k and k['msg'] != v['msg']:
        return False
    if 'choices' in k and list(k['choices']) != list(v['choices'])[:len(k['choices'])]:
        return False
    if 'inputs' in k:
        for i, x in k['inputs'].items():
            it = v['inputs'][int(i)]
            if it[0] != 'v' or it[1] != x:
                return False
    return True


def run(pid, args):
    from . import props
    spec = props.PROPS[pid]
    tier = 1 if args.tier == 'thorough' else 0
    outdir = tempfile.mkdtemp(prefix='ckbsym_%s_' % pid)
    try:
        return run_(pid, spec, tier, args, outdir)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def run_(pid, spec, tier, args, outdir):
    from .ir import Module
    from .engine import Engine
    from . import par, x86
    t0 = time.time()
    ll, so, ob, rn = build(outdir)
    tb = time.time() - t0
    log('built in %.1f s' % tb)
    m = Module(ll)
    eng = Engine(m, log)
    eng.tier = tier
    x86.Asm(eng, ob)
    entries = spec['entries'](tier) if callable(spec['entries']) else spec['entries']
    if args.entry:
        entries = [e for e in entries if e['name'] in args.entry]
    states = []
    for e in entries:
        if e['name'] not in m.fn_pos:
            print('ERROR: harness entry %s missing' % e['name'])
            return 2
        forced = e.get('forced')
        if args.forced:
            forced = eval(args.forced)
        states.append(eng.start(e['name'], forced=forced))
    budget = spec.get('budget', (780, 7200))[tier]
    if args.budget:
        budget = args.budget
    t1 = time.time()
    eng.solver.hard_ms = spec.get('hard_ms', (150000, 900000))[tier]
    kfs = known_findings(pid)
    res = par.explore(eng, states, t0 + budget, maxviol=args.maxviol, ignore=lambda v: any(kf_match(k, v) for k in kfs))
    te = time.time() - t1
    log('explored %d paths, %d steps in %.1f s; queries %d (sat %d unsat %d unknown %d hard %d) solver %.1f s max %.1f s' % (
        res.stats['paths'], res.stats['steps'], te, res.stats['queries'], res.stats['sat'], res.stats['unsat'],
        res.stats['unknown'], res.stats['hard'], res.stats['time'], res.stats['maxq']))
    kinds = {}
    for (e, k), n in res.kinds.items():
        kinds.setdefault(e, {})[k] = n
    for e in sorted(kinds):
        log('  %s: %s' % (e, kinds[e]))
    code = 0
    problems = []
    for x in sorted(set(res.inconclusive))[:12]:
        problems.append('inconclusive: ' + x)
    # ---- reachability witnesses
    if not res.violations and not args.entry and not args.forced:
        for e in entries:
            for r in e.get('reach', ()):
                if not res.reach.get((e['name'], r)):
                    problems.append('vacuous: %s never reached point %d' % (e['name'], r))
            if not kinds.get(e['name'], {}).get('ret'):
                problems.append('vacuous: %s has no completed path' % e['name'])
    # ---- native replay of the explored paths (validates the encoding)
    import random
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    paths = res.paths
    cap = args.replays if args.replays is not None else spec.get('replays', (3000, 20000))[tier]
    if len(paths) > cap:
        by = {}
        for p in paths:
            by.setdefault((p[0], p[1], tuple(sorted(set(p[5])))), []).append(p)
        sel = []
        for k in sorted(by, key=repr):
            l = by[k]
            rnd.shuffle(l)
            sel += l[:max(5, cap * len(l) // len(paths))]
        paths = sel
    t2 = time.time()
    ok = bad = 0
    if paths:
        rr = replay(rn, so, [(p[0], p[3]) for p in paths], tier, timeout=400)
        for p, r in zip(paths, rr):
            e, kind, msg, inputs, obs, reached, choices = p
            if kind not in ('ret', 'assume'):
                continue
            good = r is not None and bool(r[5]) and not r[3] and r[0] == obs and r[1] == reached \
                and bool(r[4]) == (kind == 'assume') and (not r[2] or any(v['entry'] == e for v in res.violations))
            if good:
                ok += 1
            else:
                bad += 1
                if bad <= 3:
                    problems.append('encoding mismatch: %s %s choices %s: symbolic obs %s reach %s, native %s' % (
                        e, kind, choices, [hex(x) for x in obs][:12], reached, r and ([hex(x) for x in r[0]][:12],) + tuple(r[1:])))
                    if args.v:
                        open('/tmp/mismatch%d.txt' % bad, 'w').write(ser(e, inputs))
    if bad:
        problems.append('%d of %d replayed paths differ natively' % (bad, ok + bad))
    log('replayed %d paths natively (%d differ) in %.1f s' % (ok + bad, bad, time.time() - t2))
    # ---- violations
    nviol = 0
    nknown = 0
    txt = assert_text()
    evd = os.path.join(ROOT, 'evidence')
    os.makedirs(evd, exist_ok=True)
    if res.violations:
        vr = replay(rn, so, [(v['entry'], v['inputs']) for v in res.violations], tier)
        seen = set()
        kprinted = set()
        for v, r in zip(res.violations, vr):
            if v['kind'] == 'assert':
                rep = r is not None and v['msg'] in r[2]
            else:
                rep = r is not None and bool(r[3]) and 'input' not in r[3]
            desc = '%s: %s' % (v['kind'], txt.get(v['msg'], v['msg']) if v['kind'] == 'assert' else v['msg'])
            if not rep:
                problems.append('counterexample does not reproduce natively: %s %s choices %s at %s (native: %s)' % (
                    v['entry'], desc, v['choices'], ' < '.join(demangle(x) for x in reversed(v['stack'][-4:])), r and r[1:]))
                continue
            k = [k for k in kfs if kf_match(k, v)]
            if k:
                nknown += 1
                if k[0]['what'] in kprinted:
                    continue
                kprinted.add(k[0]['what'])
                print('KNOWN-FINDING: property=%s %s' % (pid, k[0]['what']))
                continue
            nviol += 1
            key = (v['entry'], v['kind'], str(v['msg']))
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(evd, '%s.violation%d.txt' % (pid, len(seen)))
            with open(path, 'w') as f:
                f.write('# property %s, harness %s, %s\n# call stack: %s\n# choices: %s\n# replay: python3-vt -m ckbsym.check %s --replay %s   (in /verif)\n' % (
                    pid, v['entry'], desc, ' < '.join(demangle(x) for x in reversed(v['stack'])), v['choices'], pid, path))
                f.write(ser(v['entry'], v['inputs']))
            log('violation in %s: %s; choices %s; at %s' % (v['entry'], desc, v['choices'], ' < '.join(demangle(x) for x in reversed(v['stack'][-4:]))))
            print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        if nviol:
            code = 1
    if problems and code == 0:
        code = 2
    for p in problems:
        log('PROBLEM: ' + p[:1500])
    if not (args.entry or args.forced):
        write_evidence(pid, spec, tier, entries, res, kinds, ok, bad, nviol, nknown, problems, tb, te, time.time() - t0, txt, paths)
    log('%s: %s (%.1f s)' % (pid, {0: 'holds within the bounds', 1: 'VIOLATED', 2: 'INCONCLUSIVE'}[code], time.time() - t0))
    return code


def write_evidence(pid, spec, tier, entries, res, kinds, ok, bad, nviol, nknown, problems, tb, te, wall, txt, paths):
    fns = sorted(set(demangle(f) for f in res.fns))
    own = [f for f in fns if re.search(r'ckb_vm|inited_memory', f)]
    samples = []
    for p in paths[:400:40]:
        samples.append({'harness': p[0], 'path_end': p[1], 'choices': p[6][:12], 'reached': p[5][:12],
                        'inputs': [x if x[0] == 'v' else ['a', x[1], x[2], x[3][:6]] for x in p[3][:10]]})
    ex = [res_label for res_label in sorted(res.x86)]
    cov = {
        'states': res.stats['paths'],
        'transitions': res.stats['steps'],
        'traces_validated_against_impl': ok,
        'samples': samples[:6],
        'explanation': 'states = completed symbolic paths (each a set of inputs described by a path condition); transitions = '
                       'basic-block steps executed symbolically; traces_validated = paths whose solver-chosen witness was re-run '
                       'natively on the same artifact with identical observations.',
        'bounds': spec['bounds'],
        'outside_bounds': spec.get('outside', ''),
        'harness_entries': {e['name']: {'paths': kinds.get(e['name'], {}), 'steps': res.entry_stats.get(e['name'], [0, 0])[1],
                                        'reach_points_required': sorted(e.get('reach', ())),
                                        'reach_points_hit': sorted(r for (n, r) in res.reach if n == e['name'])} for e in entries},
        'functions_encoded': own[:400],
        'functions_encoded_total_including_std': len(fns),
        'x64_code_blocks_entered': len(ex),
        'assertions': {str(k): {'evaluated_symbolically': v, 'text': txt.get(k, '')} for k, v in sorted(res.asserts.items())},
        'assertion_checks': res.stats['nassert'],
        'solver': {'name': 'z3 (python3-vt)', 'queries': res.stats['queries'], 'sat': res.stats['sat'], 'unsat': res.stats['unsat'],
                   'unknown': res.stats['unknown'], 'one_shot_fallback': res.stats['hard'], 'cpu_seconds': round(res.stats['time'], 2),
                   'longest_query_s': round(res.stats['maxq'], 2)},
        'native_replay': {'agree': ok, 'differ': bad},
        'known_findings_seen': nknown,
        'exhaustive': not problems and not nviol,
        'problems': problems[:10],
        'build_s': round(tb, 1), 'explore_s': round(te, 1),
    }
    ev = {'property': pid, 'tier': 'thorough' if tier else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': 'model_checking', 'coverage': cov, 'assumptions': COMMON_ASSUMPTIONS + list(spec.get('assumes', ())),
          'wall_s': round(wall, 1), 'violations': nviol}
    p = os.path.join(ROOT, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


COMMON_ASSUMPTIONS = [
    'rustc 1.81.0 (release, LTO, panic=abort) compiles the sources faithfully to the LLVM IR that is encoded; the native replay runs that same artifact',
    'undef and poison constants read as zero; nuw/nsw/exact/noalias attributes are not exploited',
    'allocation never fails; heap objects are disjoint; atomics are executed sequentially (one thread)',
    'formatted error strings (format!) are modelled as empty strings; HashMap keys are fixed constants',
    'z3 answers are trusted for unsat; every sat model is re-evaluated against the query and replayed natively',
]


def do_replay(pid, path):
    outdir = tempfile.mkdtemp(prefix='ckbsym_replay_')
    try:
        ll, so, ob, rn = build(outdir)
        s = ''.join(l for l in open(path) if not l.startswith('#'))
        env = dict(os.environ, RUNNER_STDERR='1')
        r = subprocess.run([rn, so, '1' if os.environ.get('VERIF_TIER') == 'thorough' else '0'], input=s, text=True, capture_output=True, env=env)
        print(r.stdout, r.stderr)
        txt = assert_text()
        bad = False
        for l in r.stdout.split('\n'):
            if l.startswith('F '):
                bad = True
                print('failed assertion', l[2:], txt.get(int(l[2:]), ''))
            if l.startswith('X '):
                bad = True
        return 1 if bad else 0
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--entry', action='append')
    ap.add_argument('--forced')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replays', type=int)
    ap.add_argument('--maxviol', type=int, default=4)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    rc = [2]

    def go():
        try:
            if a.replay:
                rc[0] = do_replay(a.property, a.replay)
            else:
                rc[0] = run(a.property, a)
        except SystemExit as e:
            print('ERROR:', e)
            rc[0] = 2
        except BaseException:
            import traceback
            traceback.print_exc(limit=8)
            rc[0] = 2
    # deep expression recursion: run in a thread with a large stack
    go_in_big_stack(go)
    sys.stdout.flush()
    os._exit(rc[0])


def go_in_big_stack(go):
    import resource
    if os.environ.get('CKBSYM_STACK') != '1':
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        except Exception:
            try:
                h = resource.getrlimit(resource.RLIMIT_STACK)[1]
                resource.setrlimit(resource.RLIMIT_STACK, (h, h))
            except Exception:
                pass
        os.environ['CKBSYM_STACK'] = '1'
        os.execv(sys.executable, [sys.executable, '-m', 'ckbsym.check'] + sys.argv[1:])
    go()


if __name__ == '__main__':
    main()
