#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [--only REGEX] [--keep]

Decides one property by bounded symbolic execution of /repo's current code:
kani-compiler lowers the harnesses of harness/src/cNN.rs, together with the
functions of `succinct` they reach, to goto programs; CBMC unrolls those and a
SAT solver decides every assertion for all values of the symbolic inputs.
Counterexamples are replayed natively (dev and release profile) before they are
reported. See DESIGN.md.

Exit 0: holds within the bounds. Exit 1: VIOLATION line. Exit 2: no verdict.
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))

KANI = '/root/.kani/kani-0.68.0'
KBIN = KANI + '/bin'
JOBS = 8
MEM_LIMIT = 14 << 30

CBMC_FLAGS = ['--no-malloc-may-fail', '--no-undefined-shift-check',
              '--no-signed-overflow-check', '--nan-check',
              '--no-self-loops-to-assumptions', '--no-pointer-primitive-check',
              '--object-bits', '16', '--unwinding-assertions', '--json-ui',
              '--verbosity', '8']
SOLVERS = {'cadical': ['--sat-solver', 'cadical'],
           'minisat': ['--sat-solver', 'minisat2'],
           'kissat': ['--external-sat-solver', KBIN + '/kissat']}

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEADLINE = T0 + (850 if TIER == 'quick' else 10 * 3600)

WITNESS = 'VERIF: witness'


class NoVerdict(Exception):
    pass


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def run(cmd, timeout=None, env=None, cwd=None, limit=False, out=None):
    def pre():
        os.setsid()
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    f = open(out, 'wb') if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         env=env, cwd=cwd, preexec_fn=pre)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, b''
    finally:
        if out:
            f.close()
    return p.returncode, o or b''


def remaining():
    return max(1.0, DEADLINE - time.time())


def base_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('CARGO') and k not in ('CARGO_HOME',) or k in (
                'RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'RUST_BACKTRACE'):
            del env[k]
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_INCREMENTAL'] = '0'
    return env


class Check:
    def __init__(self, pid, only=None):
        self.pid = pid
        self.feat = pid.lower()
        self.only = re.compile(only) if only else None
        self.work = os.path.join(HERE, '.work', pid)
        self.lock = threading.Lock()
        self.results = {}
        self.funcs = set()

    # ---------------------------------------------------------------- builds
    def features(self, *extra):
        f = [self.feat] + list(extra)
        if TIER == 'thorough':
            f.append('thorough')
        return ','.join(f)

    def build_goto(self, mode):
        env = base_env()
        feats = self.features(*(['rel'] if mode == 'rel' else []))
        if mode == 'rel':
            env['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
        td = os.path.join(self.work, 'kani-' + mode)
        rc, o = run(['cargo', 'kani', '--lib', '--target-dir', td, '--only-codegen',
                     '--no-assertion-reach-checks', '-Z', 'stubbing', '--features', feats],
                    timeout=remaining(), env=env, cwd=os.path.join(HERE, 'harness'))
        open(os.path.join(self.work, 'build-%s.log' % mode), 'wb').write(o)
        if rc != 0:
            raise NoVerdict('the harnesses do not compile against /repo (%s):\n%s'
                            % (mode, o.decode('utf-8', 'replace')[-3000:]))
        hs = []
        for d, _, fs in os.walk(td):
            for f in fs:
                if f.endswith('.kani-metadata.json'):
                    m = json.load(open(os.path.join(d, f)))
                    for h in m['proof_harnesses']:
                        hs.append({'mode': mode, 'name': h['pretty_name'].split('::')[-1],
                                   'mangled': h['mangled_name'], 'symtab': h['goto_file'],
                                   'unwind': h['attributes']['unwind_value'],
                                   'stubs': [s['original'].replace(' ', '') for s in
                                             h['attributes']['stubs']]})
        return hs

    def build_native(self, profile):
        env = base_env()
        env['RUSTUP_TOOLCHAIN'] = 'stable'
        td = os.path.join(self.work, 'native')
        cmd = ['cargo', 'build', '--offline', '-q', '--bin', 'replay', '--target-dir', td,
               '--features', self.features()]
        if profile == 'release':
            cmd.append('--release')
        rc, o = run(cmd, timeout=remaining(), env=env, cwd=os.path.join(HERE, 'harness'))
        if rc != 0:
            raise NoVerdict('native replay does not build:\n' + o.decode('utf-8', 'replace')[-3000:])
        return os.path.join(td, 'debug' if profile == 'dev' else 'release', 'replay')

    # ---------------------------------------------------------------- encoding
    def encode(self, h, heap):
        d = os.path.join(self.work, 'goto')
        os.makedirs(d, exist_ok=True)
        o = os.path.join(d, h['name'] + '.goto')
        if 'src' not in h:
            h['src'] = os.path.join(d, h['name'] + '.symtab.out')
            rc, out = run([sys.executable, os.path.join(HERE, 'engine', 'gb.py'), h['symtab'],
                           h['src'], h['mode'], '0' if h['realvec'] else '1', h['mangled']],
                          timeout=remaining())
            if rc != 0:
                raise NoVerdict('%s: the goto program was not understood:\n%s'
                                % (h['name'], out.decode('utf-8', 'replace')[-2000:]))
            h.update(json.loads(out))
        src = h['src']
        steps = [
            [KBIN + '/goto-cc', '-DHEAP=%d' % heap] +
            (['-DPHANTOM'] if h['phantom'] else []) +
            (['-DLIVE_FN=' + h['live']] if 'live' in h else []) + [src, os.path.join(HERE, 'engine', 'alloc.c'),
             '-o', o],
            [KBIN + '/goto-cc', o, '--function', h['mangled'], '-o', o],
            [KBIN + '/goto-instrument', '--add-library', '--no-malloc-may-fail', o, o],
            [KBIN + '/goto-instrument', '--generate-function-body-options',
             'assert-false-assume-false', '--generate-function-body', '.*',
             '--drop-unused-functions', o, o],
            [KBIN + '/goto-instrument', '--ensure-one-backedge-per-target', o, o],
        ]
        env = dict(os.environ)
        env['PATH'] = KBIN + ':' + env['PATH']
        for s in steps:
            rc, out = run(s, timeout=remaining(), env=env)
            if rc != 0:
                raise NoVerdict('%s: %s failed:\n%s' % (h['name'], s[0],
                                                        out.decode('utf-8', 'replace')[-2000:]))
        h['goto'] = o

    def unwindset(self, h, unwind):
        """Loops in functions whose mangled name contains a given word get their own bound,
        scaled up along with `unwind` when it turns out too small."""
        if not h['loops']:
            return []
        rc, o = run([KBIN + '/cbmc', '--show-loops', '--json-ui', h['goto']], timeout=remaining())
        names = [l['name'] for m in json.loads(o) for l in m.get('loops', [])]
        us = ['%s:%d' % (n, k * (unwind // (h['unwind'] or 2))) for n in names
              for w, k in h['loops'] if w in n]
        return ['--unwindset', ','.join(us)] if us else []

    def cbmc(self, h, unwind, extra, tag, timeout, solver='cadical'):
        out = os.path.join(self.work, 'goto', '%s.%s.json' % (h['name'], tag))
        t = time.time()
        rc, _ = run([KBIN + '/cbmc'] + CBMC_FLAGS + SOLVERS[solver] +
                    h['fields'] + ['--unwind', str(unwind)] + self.unwindset(h, unwind) + extra +
                    [h['goto']],
                    timeout=timeout, limit=True, out=out)
        wall = time.time() - t
        if rc is None:
            return None
        try:
            msgs = json.load(open(out))
        except ValueError:
            raise NoVerdict('%s: CBMC gave no readable output (exit %s; memory?)' % (h['name'], rc))
        r = {'wall': wall, 'props': None, 'vars': 0, 'clauses': 0, 'steps': 0, 'solver_s': 0.0,
             'vccs': 0}
        for m in msgs:
            if 'result' in m:
                r['props'] = m['result']
            txt = m.get('messageText', '')
            g = re.match(r'size of program expression: (\d+) steps', txt)
            if g:
                r['steps'] = int(g.group(1))
            g = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', txt)
            if g:
                r['vccs'] = int(g.group(2))
            g = re.match(r'(\d+) variables, (\d+) clauses', txt)
            if g:
                r['vars'], r['clauses'] = int(g.group(1)), int(g.group(2))
            g = re.match(r'Runtime Solver: ([\d.e+-]+)s', txt)
            if g:
                r['solver_s'] += float(g.group(1))
        os.unlink(out)
        if r['props'] is None:
            errs = [m.get('messageText') for m in msgs if m.get('messageType') == 'ERROR']
            raise NoVerdict('%s: CBMC gave no result (exit %s) %s' % (h['name'], rc, errs[:3]))
        return r

    # ---------------------------------------------------------------- replay
    def values(self, h, unwind, prop, timeout):
        try:
            r = self.cbmc(h, unwind, ['--trace', '--property', prop], 'trace', timeout,
                          'cadical' if h['solver'] == 'kissat' else h['solver'])
        except NoVerdict:       # e.g. the loop of a built-in, which has no property of its own
            return None
        if r is None:
            return None
        for p in r['props']:
            if p['property'] == prop and p['status'] == 'FAILURE':
                vals = []
                for s in p.get('trace', []):
                    lhs = s.get('lhs', '')
                    if s.get('stepType') == 'assignment' and \
                            lhs.startswith('goto_symex$$return_value') and lhs.endswith('nd_rec'):
                        vals.append(int(s['value']['binary'], 2))
                return vals
        return None

    def native(self, h, vals, profile):
        rc, o = run([self.replay[profile], h['name']] + [str(v) for v in vals], timeout=20,
                    limit=True)
        o = o.decode('utf-8', 'replace').strip()
        if rc is None:
            return 'violation', 'does not terminate (20 s)'
        if rc == 10:
            return 'violation', o
        if rc == 0:
            return 'ok', o
        if rc == 11:
            return 'misfit', o
        return 'violation', 'process died (%s) %s' % (rc, o)   # abort, out of memory

    def confirm(self, h, unwind, prop, desc):
        """Counterexample -> native replay. Returns the violation record or None."""
        vals = self.values(h, unwind, prop, min(remaining(), 400))
        if vals is None:
            return None
        outs = {p: self.native(h, vals, p) for p in ('dev', 'release')}
        log('%s: %s: values %s -> %s' % (h['name'], desc, vals, outs))
        bad = [p for p in outs if outs[p][0] == 'violation']
        if not bad:
            return None
        return {'harness': h['name'], 'check': desc, 'values': vals,
                'reproduced': {p: outs[p][1] for p in bad}}

    # ---------------------------------------------------------------- one harness
    def decide(self, h):
        heap = h['heap']
        self.encode(h, heap)
        unwind = h['unwind'] or 2
        tries = 0
        res = {'name': h['name'], 'mode': h['mode'], 'kind': h['kind'], 'bounds': h['bounds'],
               'violation': None, 'error': None}
        while True:
            r = self.cbmc(h, unwind, ['--slice-formula'], 'main', remaining(), h['solver'])
            if r is None:
                res['error'] = 'solver time limit reached'
                return res
            cand, unwound, unsupported, covers, decided = [], [], [], [], 0
            heap_small = False
            for p in r['props']:
                name, st = p['property'], p['status']
                desc = p.get('description', '')
                cls = name.split('.')[-2] if name.count('.') >= 1 else ''
                if cls == 'cover':
                    covers.append((name, desc, st))
                    continue
                decided += 1
                if st == 'SUCCESS':
                    continue
                if st not in ('FAILURE',):
                    unsupported.append('%s: %s' % (name, st))
                elif 'VERIF heap bound' in desc:
                    heap_small = True
                elif cls in ('unwind', 'recursion'):
                    unwound.append((name, desc))
                elif cls in ('unsupported_construct', 'sanity_check', 'no-body') or \
                        'undefined function' in desc:
                    unsupported.append('%s: %s' % (name, desc[:200]))
                elif h['kind'].startswith('panics'):
                    if 'VERIF: ' in desc:     # returned, or another of our own checks failed
                        cand.append((name, desc))
                else:
                    cand.append((name, desc))
            res.update(unwind=unwind, heap=heap, wall_s=round(r['wall'], 2), solver_s=round(r['solver_s'], 2),
                       steps=r['steps'], vars=r['vars'], clauses=r['clauses'], checks=decided,
                       vccs=r['vccs'], covers=len(covers))
            cand.sort(key=lambda c: 'VERIF' not in c[1])
            for name, desc in cand[:4]:
                v = self.confirm(h, unwind, name, desc)
                if v:
                    v['unwind'] = unwind
                    res['violation'] = v
                    return res
            if heap_small:
                heap *= 4
                if heap > (1 << 16):
                    res['error'] = 'allocates more than %d bytes' % (heap // 4)
                    return res
                log('%s: heap bound too small, retrying with %d' % (h['name'], heap))
                self.encode(h, heap)
                continue
            if unwound and tries < 3 and remaining() > 60:
                if tries == 0:
                    # Perhaps it never ends: a run that does not terminate is a violation.
                    v = self.confirm(h, unwind, unwound[0][0], 'does not terminate')
                    if v:
                        v['unwind'] = unwind
                        res['violation'] = v
                        return res
                tries += 1
                unwind = unwind * 2
                log('%s: loop bound too small (%s), retrying with %d'
                    % (h['name'], unwound[0][0], unwind))
                continue
            if unwound:
                res['error'] = 'loop bound %d too small: %s' % (unwind, unwound[0][0])
            elif unsupported:
                res['error'] = 'not encodable: ' + '; '.join(unsupported[:3])
            elif cand:
                res['error'] = ('counterexample does not reproduce natively: ' +
                                '; '.join('%s (%s)' % c for c in cand[:3]))
            elif not covers or any(st != 'FAILURE' for _, _, st in covers):
                res['error'] = 'vacuous: cover goal not reachable: ' + ', '.join(
                    '%s %s' % (d, s) for _, d, s in covers if s != 'FAILURE')
            break
        if res['error'] is None:
            self.validate(h, unwind, covers, res)
        return res

    def validate(self, h, unwind, covers, res):
        """Replay the solver's witness natively: the real code must agree with the encoding."""
        res['witness'] = None
        if TIER == 'quick' and res['wall_s'] > 5:
            return      # too dear for the quick tier: the witness is decided, not replayed
        w = [n for n, d, _ in covers if WITNESS in d]
        budget = min(remaining(), 40 if TIER == 'quick' else 600)
        vals = self.values(h, unwind, w[0], budget) if w and remaining() > 90 else None
        if vals is None:
            return
        for prof in ('dev', 'release'):
            st, msg = self.native(h, vals, prof)
            if st != 'ok':
                res['error'] = ('encoding and real code disagree on the witness %s (%s): %s'
                                % (vals, prof, msg))
                return
        res['witness'] = vals

    # ---------------------------------------------------------------- whole check
    def main(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        with cf.ThreadPoolExecutor(4) as ex:
            fd = ex.submit(self.build_goto, 'dev')
            fr = ex.submit(self.build_goto, 'rel')
            nd = ex.submit(self.build_native, 'dev')
            nr = ex.submit(self.build_native, 'release')
            self.replay = {'dev': nd.result(), 'release': nr.result()}
            hs = fd.result() + fr.result()
        rc, o = run([self.replay['dev'], '--list'])
        table = {}
        for line in o.decode().splitlines():
            name, uw, kind, bounds = line.split('\t')
            table[name] = (kind, bounds)
        want = {n for n, (k, _) in table.items() if TIER == 'thorough' or not k.endswith('_t')}
        have = {h['name'] for h in hs}
        if want != have:
            raise NoVerdict('harness table and encoded harnesses differ: %s' % (want ^ have))
        for h in hs:
            h['kind'], h['bounds'] = table[h['name']]
            g = re.search(r'\[(minisat|kissat)\]', h['bounds'])
            h['solver'] = g.group(1) if g else 'cadical'
            g = re.search(r'\[heap (\d+)\]', h['bounds'])
            h['heap'] = int(g.group(1)) if g else 64
            h['loops'] = [(w, int(k)) for w, k in re.findall(r'\[loops (\w+)=(\d+)\]', h['bounds'])]
            h['realvec'] = '[realvec]' in h['bounds'] or '[phantom]' in h['bounds']
            g = re.search(r'\[fields (\d+)\]', h['bounds'])
            h['fields'] = ['--max-field-sensitivity-array-size', g.group(1)] if g else []
            h['phantom'] = '[phantom]' in h['bounds']
        # Declaration order; harnesses marked [slow] start first.
        order = {n: i for i, n in enumerate(table)}
        hs.sort(key=lambda h: ('[slow]' not in h['bounds'], order[h['name']]))
        if self.only:
            hs = [h for h in hs if self.only.search(h['name'])]
        log('%s: %d harnesses, tier %s' % (self.pid, len(hs), TIER))
        out = []
        stop = []

        def job(h):
            if stop:
                return None
            t = time.time()
            try:
                r = self.decide(h)
            except NoVerdict as e:
                r = {'name': h['name'], 'kind': h['kind'], 'mode': h['mode'],
                     'bounds': h['bounds'], 'violation': None, 'error': str(e)}
            if r['violation']:
                stop.append(1)
            r['total_s'] = round(time.time() - t, 2)
            log('%-34s %s  %.1fs (cbmc %ss, %s checks)' % (
                h['name'], 'VIOLATED' if r['violation'] else
                'NO VERDICT: ' + r['error'] if r['error'] else 'holds',
                r['total_s'], r.get('wall_s'), r.get('checks')))
            return r

        with cf.ThreadPoolExecutor(JOBS) as ex:
            out = [r for r in ex.map(job, hs) if r]
        self.hs = hs
        return out

    def evidence(self, out, violations, err=None):
        hs = getattr(self, 'hs', [])
        fns = sorted({f for h in hs for f in h.get('functions', []) if 'succinct' in f
                      and 'vharness' not in f})
        done = [r for r in out if not r['error'] and not r['violation']]
        stubs = sorted({s for h in hs for s in h.get('stubs', [])})
        samples = []
        for r in out:
            if r['violation']:
                samples.append({'violation': r['violation']})
        for r in done[:6]:
            samples.append({'harness': r['name'], 'witness_values': r.get('witness')})
        ev = {
            'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
            'coverage': {
                'states': sum(r.get('vars', 0) for r in out),
                'transitions': sum(r.get('steps', 0) for r in out),
                'traces_validated_against_impl':
                    sum(1 for r in out if r.get('witness') is not None) + len(violations),
                'samples': samples or [{'none': err or 'no harness decided'}],
                'explanation':
                    'Bounded symbolic model checking: no explicit states are enumerated. '
                    '`states` counts the propositional variables of the queries, `transitions` '
                    'the single-assignment program steps encoded, '
                    '`traces_validated_against_impl` the solver assignments (reachability '
                    'witnesses and counterexamples) that were replayed natively, dev and '
                    'release, and agreed with the encoding.',
                'harnesses': [
                    {k: r[k] for k in ('name', 'kind', 'bounds', 'unwind', 'checks', 'vccs',
                                       'solver_s', 'wall_s', 'error') if r.get(k) is not None}
                    for r in out],
                'harnesses_total': len(hs), 'harnesses_decided': len(done),
                'checks_discharged': sum(r.get('checks', 0) for r in done),
                'clauses': sum(r.get('clauses', 0) for r in out),
                'cover_goals_reached': sum(r.get('covers', 0) for r in done),
                'overflow_checks_removed_for_release_encoding':
                    sum(h.get('dropped', 0) for h in hs),
                'solver_s': round(sum(r.get('solver_s', 0) for r in out), 2),
                'functions_encoded_count': len(fns),
                'functions_encoded': [f[:160] for f in fns[:220]],
            },
            'assumptions': [
                'kani-compiler 0.68.0, CBMC 6.11.0 and its SAT back ends are trusted; '
                '64-bit little-endian target; allocation never fails',
                'every claim is bounded as stated per harness; loop bounds are checked by '
                'unwinding assertions',
                'stubs: ' + (', '.join(stubs) or 'none') +
                ' (error-message text is empty, so message text is outside the claim)',
                'release-profile encoding: overflow checks removed and shift distances masked '
                'in the goto program by engine/gb.py',
            ],
            'wall_s': round(time.time() - T0, 2),
            'violations': len(violations),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        p = os.path.join(HERE, 'evidence', self.pid + '.json')
        txt = json.dumps(ev, indent=1)
        while len(txt) > 60000 and ev['coverage']['functions_encoded']:
            del ev['coverage']['functions_encoded'][-20:]
            txt = json.dumps(ev, indent=1)
        open(p, 'w').write(txt + '\n')


def write_replay(pid, v):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.sh' % (pid, v['harness']))
    open(p, 'w').write('''#!/bin/bash
# %s: %s
# harness %s, reproduced: %s
cd "$(dirname "$0")/../harness" || exit 2
for prof in "" --release; do
  RUSTUP_TOOLCHAIN=stable cargo run -q --offline $prof --target-dir ../.work/replay \\
    --features %s,thorough --bin replay -- %s %s
  echo "exit $? (10 = violation)"
done
''' % (pid, v['check'].replace('\n', ' '), v['harness'],
       json.dumps(v['reproduced']).replace('\n', ' '), pid.lower(), v['harness'],
       ' '.join(map(str, v['values']))))
    os.chmod(p, 0o755)
    return p


def main():
    args = sys.argv[1:]
    only = None
    keep = '--keep' in args
    if keep:
        args.remove('--keep')
    if '--only' in args:
        i = args.index('--only')
        only = args[i + 1]
        del args[i:i + 2]
    c = Check(args[0], only)
    out, violations, code = [], [], 0
    err = None
    try:
        out = c.main()
    except NoVerdict as e:
        err = str(e)
        log('NO VERDICT:', err)
        code = 2
    violations = [r['violation'] for r in out if r['violation']]
    errors = [r for r in out if r['error']]
    if not keep:
        shutil.rmtree(c.work, ignore_errors=True)
    c.evidence(out, violations, err)
    if violations:
        for v in violations:
            print('VIOLATION property=%s replay=%s' % (c.pid, write_replay(c.pid, v)))
            print('  %s: %s values=%s %s' % (v['harness'], v['check'], v['values'], v['reproduced']))
        sys.exit(1)
    if errors or code:
        for r in errors:
            print('NO VERDICT property=%s %s: %s' % (c.pid, r['name'], r['error']))
        sys.exit(2)
    print('OK property=%s harnesses=%d checks=%d wall=%.1fs' % (
        c.pid, len(out), sum(r['checks'] for r in out), time.time() - T0))


main()
