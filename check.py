#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  check.py <property> [--tier quick|thorough] [--seed N] [--scale X]
  check.py --replay <file>          re-run one recorded violating case
  check.py --selftest               compile every harness (used by setup_cmd)

Exit 0: held on everything explored.  Exit 1: VIOLATION lines printed.
Exit 2: the check could not reach a verdict (harness error / inconclusive).
"""
import sys, os, json, subprocess, threading, queue, time, hashlib, struct, signal, re, glob, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from checks_conf import CHECKS, COMMON_ASSUMPTIONS
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

SAN = {
    # one sanitizer family per build
    'asan': (['clang++', '-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
              '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'], []),
    'asan-dbg': (['clang++', '-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
              '-fno-sanitize-recover=all', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC'], []),
    'tsan': (['clang++', '-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-pthread'], []),
    'plain': (['g++', '-std=c++17', '-O1', '-g1'], []),
    'plainclang': (['clang++', '-std=c++17', '-O1', '-g1'], []),
    # sees decisions taken on uninitialised storage; harness/msan_rt.hpp supplies what libstdc++.so would hide from it
    'msan': (['clang++', '-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=memory'], []),
}
WARN = ['-w']
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=0:hard_rss_limit_mb=3500:malloc_context_size=20:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'MSAN_OPTIONS': 'exitcode=99:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:second_deadlock_stack=1',
}


class HarnessError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), os.path.join(ROOT, 'harness')):
        for d, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def compile_cmd(b, out):
    cc, _ = SAN[b['san']]
    cmd = list(cc) + WARN + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'harness')]
    cmd += ['-DPART=%d' % b['part']] + b.get('defs', []) + [os.path.join(ROOT, 'harness', b['src']), '-o', out] + b.get('libs', [])
    return cmd


def do_compile(b, th):
    key = hashlib.sha256((th + json.dumps(b, sort_keys=True)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'bin', '%s.p%d.%s.%s' % (b['src'].replace('.cpp', ''), b['part'], b['san'], key))
    b['exe'] = out
    if os.path.exists(out):
        os.utime(out)
        return
    tmp = out + '.tmp%d' % os.getpid()
    p = subprocess.run(compile_cmd(b, tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        errs = [l for l in p.stdout.splitlines() if 'error:' in l or 'error ' in l][:4]
        raise HarnessError('compile failed: %s part %d\n%s' % (b['src'], b['part'], '\n'.join(errs) or p.stdout[:3000]))
    os.rename(tmp, out)


def prune():
    d = os.path.join(BUILD, 'bin')
    fs = sorted(glob.glob(d + '/*'), key=os.path.getmtime)
    while len(fs) > 220:
        try: os.unlink(fs.pop(0))
        except OSError: fs.pop(0) if fs else None


def frames(text):
    """Names of the library functions in a sanitizer report: the identity of a crash."""
    out = []
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (.*)', text):
        fn = m.group(1)
        if '/boost/polygon' in fn:
            f = re.search(r'(boost/polygon/[\w/]+\.hpp)', fn)
            name = re.sub(r'<.*', '', fn.split(' /')[0]).strip()
            name = re.sub(r'\(.*', '', name)
            name = name.split(' ')[-1]
            out.append(name + '@' + (f.group(1) if f else '?'))
        if len(out) >= 1:
            break
    return ' < '.join(out)


def classify(rc, err):
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([\w-]+)', err)
    if m:
        return 'sanitizer:' + m.group(2) + ' ' + frames(err)
    m = re.search(r'WARNING: (?:Thread|Memory)Sanitizer: ([\w -]+)', err)
    if m:
        return 'sanitizer:' + m.group(1).strip() + ' ' + frames(err)
    m = re.search(r'runtime error: (.*)', err)
    if m:
        kind = re.sub(r"-?\d[\d.e+]*", 'N', m.group(1))[:100]
        kind = re.sub(r"0x[0-9a-f]+", 'ADDR', kind)
        return 'ub:' + kind + ' ' + frames(err)
    if 'Assertion' in err or '_M_assert' in err:
        return 'assertion:' + err.strip().splitlines()[0][:160]
    if 'Error: attempt to' in err:
        return 'iterator-debug:' + re.search(r'Error: (.*)', err).group(1)[:120]
    if 'hard rss limit' in err:
        return 'memory-blowup'
    if 'terminate called' in err:
        return 'terminate'
    return 'crash:rc=%d' % rc


class Runner:
    def __init__(self, prop, tier, seed, scale):
        self.prop, self.tier, self.seed, self.scale = prop, tier, seed, scale
        self.conf = CHECKS[prop]
        self.lock = threading.Lock()
        self.viol = []
        self.err = []
        self.notes = []
        self.counters = {}
        self.samples = []
        self.evals = self.nontriv = 0
        self.hashes = set()
        self.famcases = {}
        self.work = os.path.join(BUILD, 'run', '%s-%s-%d-%d' % (prop, tier, seed, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)

    def args(self, b):
        a = ['--seed', str(self.seed)]
        if self.tier == 'thorough': a.append('--thorough')
        sc = self.scale * b.get('scale', 1.0)
        if sc != 1.0: a += ['--scale', str(sc)]
        return a

    def spawn(self, cmd, wall):
        env = dict(os.environ); env.update(ENV)
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=self.work, start_new_session=True)
        try:
            _, err = p.communicate(timeout=wall)
            return p.returncode, err.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, ''

    def run_shard(self, b, k, n):
        tag = '%s.p%d.%s.%d' % (b['src'], b['part'], b['san'], k)
        outp = os.path.join(self.work, tag + '.out')
        stp = os.path.join(self.work, tag + '.status')
        resume = []
        crashes = 0
        wall = 780 if self.tier == 'quick' else 7200
        t_end = time.time() + wall
        retry_unknown = 0
        while True:
            cmd = SAN[b['san']][1] + [b['exe'], '--shard', str(k), '--shards', str(n), '--out', outp, '--status', stp, '--cpu', str(b.get('cpu', 20))] + self.args(b) + resume
            rc, err = self.spawn(cmd, max(5, t_end - time.time()))
            if rc == 0:
                break
            st = open(stp, 'rb').read() if os.path.exists(stp) else b''
            where = st[:200].split(b'\0')[0].decode('utf8', 'replace').split()
            if rc is None:
                with self.lock: self.notes.append('wall-clock watchdog ended shard %s at %s (inconclusive for the rest of that shard)' % (tag, where))
                with self.lock: self.err.append('watchdog: ' + tag)
                break
            if len(where) != 2:
                with self.lock: self.err.append('harness %s died outside any case rc=%s: %s' % (tag, rc, err[-2000:]))
                break
            fam, idx = where[0], int(where[1])
            case = st[256:].split(b'\0')[0].decode('utf8', 'replace')
            hang = rc == 97 and st[200:204] == b'HANG'
            if hang:
                # not believed until a second run alone, with three times the budget, agrees
                stp2 = stp + '.re'
                rc2, err2 = self.spawn(SAN[b['san']][1] + [b['exe'], '--only', fam, '--idx', str(idx), '--out', os.devnull, '--status', stp2, '--cpu', str(3 * b.get('cpu', 20))] + self.args(b), 300)
                if rc2 == 97:
                    self.violation(b, fam, idx, 'hang', 'the operation did not finish within %d s of CPU time' % (3 * b.get('cpu', 20)), case)
                elif rc2 == 0:
                    with self.lock: self.notes.append('%s #%d slow once, finished on re-run (inconclusive)' % (fam, idx))
                else:
                    self.violation(b, fam, idx, classify(rc2 if rc2 is not None else -1, err2), err2[-3000:], case)
            elif rc == -9 and retry_unknown < 1:
                retry_unknown += 1   # killed from outside (memory pressure): retry the same case once
                resume = ['--resume', fam, str(idx - n)]
                continue
            else:
                self.violation(b, fam, idx, classify(rc, err), err[-4000:], case)
            crashes += 1
            if crashes >= 3:
                with self.lock: self.notes.append('shard %s stopped after 3 crashing cases' % tag)
                break
            resume = ['--resume', fam, str(idx)]
        if os.path.exists(outp):
            for line in open(outp, errors='replace'):
                try: o = json.loads(line)
                except ValueError: continue
                if o['type'] == 'violation':
                    self.violation(b, o['family'], o['idx'], o['key'], o['msg'], o['case'])
                else:
                    with self.lock:
                        self.evals += o['evaluations']; self.nontriv += o['nontrivial']
                        for c, v in o['counters'].items(): self.counters[c] = self.counters.get(c, 0) + v
                        if k == 0: self.samples += o['samples']
            os.unlink(outp)
        if os.path.exists(outp + '.hashes'):
            d = open(outp + '.hashes', 'rb').read()
            with self.lock: self.hashes.update(struct.unpack('<%dQ' % (len(d) // 8), d[:len(d) // 8 * 8]))
            os.unlink(outp + '.hashes')

    def violation(self, b, fam, idx, key, msg, case):
        with self.lock:
            self.viol.append(dict(property=self.prop, src=b['src'], part=b['part'], san=b['san'], defs=b.get('defs', []), libs=b.get('libs', []),
                                  family=fam, idx=idx, key=key, msg=msg, case=case, seed=self.seed, tier=self.tier, scale=self.scale))

    def run(self):
        t0 = time.time()
        th = tree_hash()
        only = os.environ.get('VERIF_PARTS')
        builds = [dict(b) for b in self.conf['builds'] if (not only or str(b['part']) in only.split(',')) and (self.tier == 'thorough' or not b.get('thorough_only'))]
        q = queue.PriorityQueue()
        seq = [0]
        pending = [0]
        cv = threading.Condition()

        def put(prio, fn):
            with cv:
                pending[0] += 1
                seq[0] += 1
                q.put((prio, seq[0], fn))
                cv.notify()

        def mk(b):
            def compile_then_run():
                do_compile(b, th)
                n = b.get('shards', JOBS)
                for k in range(n):
                    put(2, lambda k=k: self.run_shard(b, k, n))
            return compile_then_run
        for b in builds:
            put(1, mk(b))

        def worker():
            while True:
                with cv:
                    while q.empty() and pending[0] > 0:
                        cv.wait(1)
                    if pending[0] == 0: cv.notify_all(); return
                    try: _, _, fn = q.get_nowait()
                    except queue.Empty: continue
                try: fn()
                except HarnessError as e:
                    with self.lock: self.err.append(str(e))
                except Exception as e:
                    import traceback
                    with self.lock: self.err.append('driver: ' + traceback.format_exc())
                finally:
                    with cv:
                        pending[0] -= 1
                        cv.notify_all()
        ws = [threading.Thread(target=worker) for _ in range(JOBS)]
        [w.start() for w in ws]; [w.join() for w in ws]
        shutil.rmtree(self.work, ignore_errors=True)
        prune()
        return self.finish(time.time() - t0)

    def finish(self, wall):
        kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
        known, fresh = {}, {}
        for v in self.viol:
            hit = None
            for f in kf['findings']:
                if f['property'] != self.prop: continue
                if f.get('family') and f['family'] != v['family']: continue
                if not (f['key'] in ('*', v['key']) or (f.get('key_prefix') and v['key'].startswith(f['key_prefix']))): continue
                if f.get('idx') is not None and f['idx'] != v['idx']: continue
                if f.get('case_contains') and f['case_contains'] not in v['case']: continue
                hit = f; break
            if hit: known.setdefault(hit['what'], []).append(v)
            else: fresh.setdefault((v['family'], v['key']), []).append(v)
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for f in glob.glob(os.path.join(rdir, self.prop + '-*.json')): os.unlink(f)
        lines = []
        for n, ((fam, key), vs) in enumerate(sorted(fresh.items())):
            if n >= 25: break
            v = min(vs, key=lambda v: (len(v['case']) or 10 ** 9, v['idx']))
            path = os.path.join(rdir, '%s-%d.json' % (self.prop, n))
            with open(path, 'w') as fh: json.dump(dict(v, occurrences=len(vs)), fh, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('[%s] family=%s idx=%d key=%s x%d: %s' % (self.prop, fam, v['idx'], key, len(vs), v['msg'][:400].replace('\n', ' | ')))
        for what, vs in sorted(known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        for s in self.notes[:20]: print('note:', s)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='exploration',
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.hashes), rule=self.conf['rule'],
                                samples=self.samples[:12] or ['(none)'],
                                nontrivial=self.nontriv, observed=dict(sorted(self.counters.items())), builds=sorted({b['san'] for b in self.conf['builds']}),
                                known_findings_seen=len(known), inconclusive=self.notes),
                  assumptions=COMMON_ASSUMPTIONS + self.conf.get('assumptions', []), wall_s=round(wall, 2), violations=len(fresh))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
        print('[%s] tier=%s seed=%d evaluations=%d distinct_nontrivial=%d violations=%d known=%d wall=%.1fs' % (self.prop, self.tier, self.seed, self.evals, len(self.hashes), len(fresh), len(known), wall))
        if lines:
            for l in lines: print(l)
            for e in self.err[:3]: print('also: ' + e[:500])
            return 1
        if self.err:
            for e in self.err[:5]: print('HARNESS ERROR: ' + e, file=sys.stderr)
            return 2
        if not self.hashes or self.evals < self.conf.get('min_evaluations', 10):
            print('HARNESS ERROR: nothing observed', file=sys.stderr)
            return 2
        for e in [] if os.environ.get('VERIF_PARTS') else self.conf.get('must_observe', []):
            if not self.counters.get(e):
                print('HARNESS ERROR: event class "%s" was never observed' % e, file=sys.stderr)
                return 2
        return 0


def replay(path):
    v = json.load(open(path))
    b = dict(src=v['src'], part=v['part'], san=v['san'], defs=v['defs'], libs=v['libs'])
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    do_compile(b, tree_hash())
    cmd = SAN[b['san']][1] + [b['exe'], '--only', v['family'], '--idx', str(v['idx']), '--seed', str(v['seed']), '--verbose', '--cpu', '60'] + (['--thorough'] if v['tier'] == 'thorough' else [])
    env = dict(os.environ); env.update(ENV)
    return subprocess.call(cmd, env=env)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': return replay(a[1])
    if a and a[0] == '--selftest':
        # compile one small harness: proves the toolchain and headers are usable
        os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
        p = subprocess.run(['clang++', '-std=c++17', '-fsanitize=address,undefined', '-x', 'c++', '-', '-fsyntax-only', '-I' + os.path.join(REPO, 'include'), '-w'],
                           input='#include <boost/polygon/polygon.hpp>\n#include <boost/polygon/voronoi.hpp>\nint main(){}', text=True)
        return 0 if p.returncode == 0 else 2
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]
        elif a[i] == '--seed': seed = int(a[i + 1])
        elif a[i] == '--scale': scale = float(a[i + 1])
        i += 2
    return Runner(prop, tier, seed, scale).run()


if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
