#!/usr/bin/env python3
"""Runs the solver-based check of one property (see DESIGN.md).

  check.py <property> [--tier quick|thorough] [--only JOB] [-v]
  check.py --replay <file>          replays a recorded counterexample against the real code
  check.py --build                  builds the engine
"""
import sys, os, json, subprocess, hashlib, time, shutil, threading, tempfile, re, glob
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
EVID = os.path.join(ROOT, 'evidence')
sys.path.insert(0, ROOT)
CLANG = 'clang++-18'
COMMON = ['-std=c++2a', '-DCONSTEXPR_CEST=1', '-ffp-contract=off', '-fsized-deallocation', '-w',
          '-I' + REPO + '/include', '-I' + ROOT + '/sx/rt', '-I' + ROOT + '/harness']


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')


def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def build_engine():
    src = glob.glob(ROOT + '/sx/engine/*')
    d = os.path.join(BUILD, 'engine-' + filehash(src))
    exe = os.path.join(d, 'sx')
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        for old in glob.glob(BUILD + '/engine-*'):
            if old != d: shutil.rmtree(old, ignore_errors=True)
        rc, o, e = sh(['bash', ROOT + '/sx/engine/build.sh', d])
        if rc:
            print('ERROR: engine build failed\n' + o + e); sys.exit(2)
    return exe


def build_rt(ubsan):
    src = [ROOT + '/sx/rt/native.cpp', ROOT + '/sx/rt/sx.h']
    out = {}
    for kind in ('asan', 'plain'):
        f = os.path.join(BUILD, 'native-%s-%s.o' % (kind, filehash(src)))
        if not os.path.exists(f):
            os.makedirs(BUILD, exist_ok=True)
            tmp = f + '.%d.tmp' % os.getpid()
            rc, o, e = sh([CLANG, '-O1', '-g', '-DSX_NATIVE', '-c', src[0], '-o', tmp] + COMMON + (['-fsanitize=address'] if kind == 'asan' else []))
            if rc: print('ERROR: replay runtime build failed\n' + e); sys.exit(2)
            os.rename(tmp, f)
        out[kind] = f
    return out


UBSAN = '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return'


class Unit:
    """One harness source compiled with one set of definitions: IR for the engine, binaries for replay."""
    def __init__(self, src, defs, ubsan, work, n):
        self.src, self.defs, self.ubsan, self.dir = src, defs, ubsan, os.path.join(work, 'u%d' % n)
        os.makedirs(self.dir, exist_ok=True)
        self.lock = threading.Lock(); self.native = {}; self.note = None
        self.flags = ['-DSX_%s=%s' % (k, v) for k, v in sorted(defs.items()) if (k, v) != ('ICE', 0)]

    def ir(self):
        bc = self.dir + '/h.bc'; bc2 = self.dir + '/h2.bc'
        rc, o, e = sh([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-emit-llvm', '-c', ROOT + '/harness/' + self.src, '-o', bc] + COMMON + self.flags)
        if rc and '-DSX_PLAIN' not in self.flags: # the code may demand more of an element type than it used to: decide what can be decided with less demanding ones
            first = e; self.flags.append('-DSX_PLAIN'); e = self.ir()
            if e is None: self.note = '%s compiles only with element types that have every operation: %s' % (self.src, first[:600])
            return e and first
        if rc: return e
        rc, o, e = sh(['opt-18', '-passes=mem2reg', bc, '-o', bc2])
        return e if rc else None

    def bin(self, kind):
        with self.lock:
            if kind not in self.native:
                exe = '%s/n_%s' % (self.dir, kind)
                san = ['-fsanitize=address'] + ([UBSAN, '-fno-sanitize-recover=all'] if self.ubsan else []) if kind == 'asan' else []
                rc, o, e = sh([CLANG, '-O0', '-g1', '-fno-omit-frame-pointer', '-DSX_NATIVE', ROOT + '/harness/' + self.src, RT[kind], '-o', exe] + san + COMMON + self.flags)
                self.native[kind] = exe if rc == 0 else None
                if rc: print('note: native build failed: ' + e[:2000])
            return self.native[kind]


def replay_native(unit, entry, inputs, kind, msg):
    """Runs the real code on the solver's input. Returns (reproduced, text)."""
    f = tempfile.NamedTemporaryFile('w', delete=False, dir=unit.dir, suffix='.case')
    f.write(' '.join(str(i[2]) for i in inputs) + '\n'); f.close()
    env = dict(os.environ); env['SX_TIMEOUT'] = '15'
    env['SX_LEAKCHECK'] = '0' if kind == 'leak' else '1000000'
    exe = unit.bin('asan')
    if not exe: return False, 'native build failed'
    rc, o, e = sh([exe, entry, f.name], timeout=40, env=env)
    txt = 'exit %d\n%s\n%s' % (rc, o[-1500:], e[:3000])
    if rc in (77, 78): return False, txt
    if rc != 0: return True, txt
    if kind == 'uninit':
        exe = unit.bin('plain')
        if exe:
            rc, o, e = sh(['valgrind', '-q', '--error-exitcode=99', '--leak-check=no', exe, entry, f.name], timeout=120, env=env)
            txt += '\nvalgrind: exit %d\n%s' % (rc, e[:3000])
            if rc == 99: return True, txt
    return False, txt


BOUND = {'K': 'at most %s operations per history (or, where the harness has no history, its step/exponent parameter)', 'N0': 'initial sizes up to %s', 'GROW': 'sizes grown one element at a time up to %s', 'W': 'a window of %s positions around each storage boundary',
         'HAY': 'texts of up to %s characters', 'NEEDLE': 'patterns of up to %s characters', 'XL': 'first argument (real part, or magnitude) from %s', 'XH': 'first argument up to %s', 'YL': 'second argument (imaginary part) from %s', 'YH': 'second argument up to %s', 'SYM': None, 'ICE': None}


def bounds_text(j, defs):
    t = [BOUND[k] % v for k, v in sorted(defs.items()) if BOUND.get(k)]
    if 'SYM' in defs: t.append('operation codes, sizes and positions symbolic')
    if defs.get('ICE'): t.append('with __builtin_is_constant_evaluated() taken as true')
    t.append('all values of every symbolic input; loops are unrolled as far as the input sizes drive them, no cut-off unless "exhaustive" is false')
    return (j['bounds'] + '; ' if j.get('bounds') else '') + '; '.join(t)


def load_known():
    res = {}
    p = ROOT + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) id=(\S+) (.*)', l)
            if m: res[(m.group(1), m.group(2))] = m.group(3)
    return res


def main():
    global RT
    args = sys.argv[1:]
    if '--build' in args:
        build_engine(); build_rt(False); print('built'); return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    only = args[args.index('--only') + 1] if '--only' in args else None
    verbose = '-v' in args
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from props import PROPS
    if '--replay' in args:
        r = json.load(open(args[args.index('--replay') + 1]))
        RT = build_rt(False); w = tempfile.mkdtemp(prefix='sxreplay')
        u = Unit(r['harness'], r['defs'], r['ubsan'], w, 0)
        ok, txt = replay_native(u, r['entry'], r['inputs'], r['kind'], r['msg'])
        print(txt); shutil.rmtree(w, ignore_errors=True)
        print('REPRODUCED' if ok else 'NOT REPRODUCED'); return 1 if ok else 0
    pid = args[0]
    P = PROPS[pid]
    t0 = time.time()
    exe = build_engine(); RT = build_rt(False)
    work = os.path.join(BUILD, 'work-%s-%d' % (pid, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    os.makedirs(EVID + '/replay', exist_ok=True)
    for old in glob.glob(EVID + '/replay/%s-*' % pid): os.unlink(old)
    units = {}; jobs = []
    for j in P['jobs']:
        if only and j['entry'] != only: continue
        if j.get('tier') and j['tier'] != tier: continue
        defs = dict(j.get('defs', {})); defs.update(j.get(tier, {}))
        key = (j['file'], tuple(sorted(defs.items())), bool(j.get('ovf')))
        if key not in units: units[key] = Unit(j['file'], defs, bool(j.get('ovf')), work, len(units))
        jobs.append((j, units[key]))
    try:
        return run(pid, P, tier, seed, exe, units, jobs, work, t0, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, P, tier, seed, exe, units, jobs, work, t0, verbose):
    errs = {}
    with ThreadPoolExecutor(8) as ex:
        for u, e in zip(units.values(), ex.map(lambda u: u.ir(), units.values())):
            if e: errs[u.src] = e; u.failed = True
    for k, v in errs.items(): print('ERROR: harness %s does not compile against %s:\n%s' % (k, REPO, v[:4000]))
    jobs = [(j, u) for j, u in jobs if not getattr(u, 'failed', False)] # the others are still decided
    if not jobs: return 2
    units = {k: u for k, u in units.items() if not getattr(u, 'failed', False)}
    sem = threading.Semaphore(8); big = threading.Lock()
    results = {}; found = []; skipped = set()

    def one(k):
        j, u = jobs[k]
        w = int(j.get('workers', 2)); 
        budget = j.get('time_' + tier, j.get('time', 60 if tier == 'quick' else 600))
        out = os.path.join(work, 'j%d' % k)
        cmd = [exe, u.dir + '/h2.bc', '--entry', j['entry'], '--out', out, '--workers', str(w), '--time', str(budget), '--seed', str(seed), '--tmp', work, '--samples', str(j.get('samples', 4))]
        if j.get('ovf'): cmd.append('--ovf')
        for o in j.get('opts', []): cmd.append(str(o))
        with big:
            for _ in range(w): sem.acquire()
        try:
            t = time.time(); spent = t - t0
            if tier == 'quick': # an answer is due within 900 s, confirmation included: what is left is cut short, and reported as not explored
                if spent > 520 or (found and spent > 200):
                    results[k] = (0, '', out, 0.0); skipped.add(k); return
                cmd[cmd.index('--time') + 1] = str(max(5, min(budget, 540 - spent)))
            rc, o, e = sh(cmd, timeout=budget + (60 if tier == 'quick' else 240))
            results[k] = (rc, o + e, out, time.time() - t)
            for f in glob.glob(out + '.w*'):
                try: found.extend(1 for v in json.load(open(f))['violations'])
                except Exception: pass
        finally:
            for _ in range(w): sem.release()
    order = sorted(range(len(jobs)), key=lambda k: -int(jobs[k][0].get('workers', 2)))
    with ThreadPoolExecutor(max(1, len(jobs)) + 2) as ex:
        nat = [ex.submit(u.bin, 'asan') for u in list(units.values())[:2]] if False else []
        list(ex.map(one, order))
    # ---- native builds for validation, in parallel
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda u: u.bin('asan'), units.values()))
    tot = {}; funcs = {}; reasons = {}; harn = []; viols = []; validated = 0; mism = []; samples = []; exhaustive = True; hard = [u.note for u in units.values() if u.note]
    st = 0.0
    for k, (j, u) in enumerate(jobs):
        rc, log, out, dt = results[k]
        parts = []
        for f in sorted(glob.glob(out + '.w*')):
            try: parts.append(json.load(open(f)))
            except Exception as e: hard.append('%s: unreadable engine output (%s)' % (j['entry'], e))
        if k in skipped: hard.append('%s: not explored, the time for this run was used up' % j['entry']); exhaustive = False; continue
        if rc not in (0,): hard.append('%s: engine exit %s %s' % (j['entry'], rc, log[-1500:]))
        h = {'harness': j['file'], 'entry': j['entry'], 'definitions': u.defs, 'bounds': bounds_text(j, u.defs), 'wall_s': round(dt, 2)}
        cov = {}; hs = {}; smp = []
        for p in parts:
            for a, b in p['stats'].items(): tot[a] = tot.get(a, 0) + b; hs[a] = hs.get(a, 0) + b
            st += p['solver_time']; hs['solver_time'] = hs.get('solver_time', 0) + p['solver_time']
            for a, b in p['reasons'].items(): reasons[a] = reasons.get(a, 0) + b
            for a, b in p['covers'].items(): cov[a] = cov.get(a, 0) + b
            funcs.update(p['functions'])
            for v in p['violations']: viols.append((j, u, v))
            smp += p['samples']
        h.update(hs); h['reached'] = cov
        h['exhaustive'] = bool(rc == 0 and not hs.get('unexplored') and not hs.get('inconclusive') and not hs.get('asserts_unknown'))
        exhaustive &= h['exhaustive']
        want = j.get('covers', ['done'])
        h['vacuity_witness'] = all(cov.get(c) for c in want)
        if not h['vacuity_witness'] and not any(v[0] is j for v in viols): hard.append('%s: vacuous - no path reached %s (%s)' % (j['entry'], [c for c in want if not cov.get(c)], {a: b for a, b in reasons.items()}))
        harn.append(h)
        # cross-check sampled paths against the real binary
        nb = u.bin('asan') if smp and j.get('validate', True) else None
        if nb:
            import random
            random.Random(seed).shuffle(smp); smp = smp[:16]
            f = os.path.join(work, 's%d' % k); open(f, 'w').write('\n'.join(' '.join(i[2] for i in s['inputs']) for s in smp) + '\n')
            env = dict(os.environ); env['SX_LEAKCHECK'] = '1000000'
            rc2, o, e = sh([nb, j['entry'], f, 'batch'], timeout=400, env=env)
            lines = o.strip('\n').split('\n')
            for s, l in zip(smp, lines):
                got = l.split()
                if got and got[0] == '0' and got[1:] == s['obs']: validated += 1
                else: mism.append({'entry': j['entry'], 'inputs': s['inputs'], 'engine': s['obs'], 'native': l[:300]})
            for s in smp[:2]: samples.append({'harness': j['entry'], 'path_inputs': [[i[0], i[2]] for i in s['inputs']], 'observed': s['obs'], 'meaning': 'solver model of one explored path; the real code gave the same observations'})
        if verbose: print(j['entry'], u.defs, 'paths', hs.get('paths'), 'assumed', hs.get('assumed'), 'err', hs.get('errors'), 'inc', hs.get('inconclusive'), 'q', hs.get('queries'), 'sat', hs.get('sat'), 'unsat', hs.get('unsat'), 'unk', hs.get('unknown'), 'folded', hs.get('asserts_folded'), 'solved', hs.get('asserts_solved'), 'unexpl', hs.get('unexplored'), 'ins', hs.get('insts'), 't=%.1f' % dt, 'st=%.1f' % hs.get('solver_time', 0))
    # ---- violations: confirm against the real code
    known = load_known(); confirmed = []; unconf = []; seen = {}; kf = set()
    groups = {}
    for j, u, v in viols: groups.setdefault((j['entry'], v['kind'], v['msg'], v['loc'], v['known']), []).append((j, u, v))
    glist = sorted(groups.items())
    deadline = time.time() + 200

    def confirm(g):
        key, lst = g
        lst = sorted(lst, key=lambda x: len(x[2]['inputs']))[:3]
        last = ''
        for j, u, v in lst:
            if time.time() > deadline: break
            ok, txt = replay_native(u, j['entry'], v['inputs'], v['kind'], v['msg'])
            last = txt
            if ok: return (j, u, v, txt, True)
        return (lst[0][0], lst[0][1], lst[0][2], last, False)
    with ThreadPoolExecutor(6) as ex: conf = list(ex.map(confirm, glist[:40]))
    nviol = 0
    for j, u, v, txt, ok in conf:
        if not ok:
            unconf.append({'entry': j['entry'], 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'inputs': [[i[0], i[2]] for i in v['inputs']], 'stack': v['stack'], 'native': txt[:600]}); continue
        if v['known'] and (pid, v['known']) in known: kf.add(v['known']); continue
        nviol += 1
        path = EVID + '/replay/%s-%d.json' % (pid, nviol)
        json.dump({'property': pid, 'harness': j['file'], 'entry': j['entry'], 'defs': u.defs, 'ubsan': u.ubsan, 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'stack': v['stack'], 'inputs': v['inputs'], 'native': txt, 'how': 'python3 /verif/check.py --replay ' + path}, open(path, 'w'), indent=1)
        print('%s: %s [%s] at %s' % (j['entry'], v['msg'], v['kind'], v['loc']))
        if nviol <= 12: print('  inputs: ' + ' '.join('%s=%s' % (i[0], i[2]) for i in v['inputs']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for (p, i), what in sorted(known.items()):
        if p == pid: print('KNOWN-FINDING: property=%s %s %s' % (pid, i, what))
    for x in unconf[:10]: print('note: engine report not reproduced by the real code (not a violation): %s %s at %s inputs %s' % (x['kind'], x['msg'], x['loc'], x['inputs']) + ('\n' + x['stack'] + '\n' + x['native'] if verbose else ''))
    for x in mism[:5]: print('note: sampled path differs natively: %s' % json.dumps(x)[:600])
    if reasons: print('note: inconclusive paths: ' + '; '.join('%s (%d)' % (a, b) for a, b in sorted(reasons.items())[:8]))
    for x in hard: print('note: ' + x)
    cover = {'states': tot.get('paths', 0) + tot.get('forks', 0) + tot.get('assumed', 0), 'transitions': tot.get('insts', 0), 'traces_validated_against_impl': validated, 'samples': samples[:6] or [{'note': 'no completed path was sampled'}],
             'exhaustive': exhaustive and not hard, 'paths_completed': tot.get('paths', 0), 'paths_cut_by_assumption': tot.get('assumed', 0), 'states_meaning': 'symbolic states: completed paths + cut paths + forks; transitions: LLVM instructions executed symbolically',
             'solver_queries': tot.get('queries', 0), 'solver_sat': tot.get('sat', 0), 'solver_unsat': tot.get('unsat', 0), 'solver_unknown': tot.get('unknown', 0), 'query_cache_hits': tot.get('cache_hits', 0), 'solver_time_s': round(st, 2), 'external_portfolio_queries': tot.get('external_queries', 0), 'interval_procedure_queries': tot.get('icp', 0), 'interval_boxes': tot.get('icp_boxes', 0),
             'assertions_discharged_by_solver': tot.get('asserts_solved', 0), 'assertions_discharged_by_term_rewriting': tot.get('asserts_folded', 0), 'assertions_undecided': tot.get('asserts_unknown', 0),
             'inconclusive_paths': tot.get('inconclusive', 0), 'inconclusive_reasons': reasons, 'unexplored_states_at_budget': tot.get('unexplored', 0),
             'functions_encoded': sorted(set(funcs))[:400], 'functions_encoded_count': len(funcs), 'harnesses': harn, 'engine_reports_not_reproduced': unconf[:20], 'validation_mismatches': mism[:10], 'notes': hard}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'), 'coverage': cover, 'assumptions': P.get('assumptions', []) + ['clang 18 -O0 IR (after mem2reg) represents the source; libstdc++ headers are executed as code, external libstdc++/libc entry points are modelled (see DESIGN.md)', 'heap allocation succeeds for the sizes within the bounds; addresses are never reused'], 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    json.dump(ev, open(EVID + '/%s.json' % pid, 'w'), indent=1)
    print('%s %s: %d paths, %d queries (%d sat %d unsat %d unknown), %d validated natively, %s, %.1fs' % (pid, tier, tot.get('paths', 0), tot.get('queries', 0), tot.get('sat', 0), tot.get('unsat', 0), tot.get('unknown', 0), validated, 'exhaustive within bounds' if cover['exhaustive'] else 'NOT exhaustive', time.time() - t0))
    if nviol: return 1
    if errs: return 2
    if hard and not tot.get('paths'): return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
