#!/usr/bin/env python3
"""Runs the check of one property:  check.py C17   (VERIF_SEED, VERIF_TIER=quick|thorough)

exit 0  property held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the check could not be carried out (build failure, broken machinery)
"""
import json, os, re, shutil, signal, subprocess, sys, time, tempfile, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, os.path.join(VERIF, 'lib'))


class Broken(Exception):
    pass


class Verdict(Exception):
    def __init__(self, why, text):
        Exception.__init__(self, why)
        self.why, self.text = why, text


GATE = 'github.com/ElectroUnion/egts-gate/'


def blame(stack):
    """the innermost frame that is neither the runtime nor a library belongs to egts-gate"""
    for l in stack.splitlines():
        if l.startswith(GATE):
            return True
        if l.startswith('main.') or l.startswith('\tmain.'):
            return False
    return False


def stuck(dump):
    """a goroutine has been blocked for minutes in a call into egts-gate (other than serving connections)"""
    for g in dump.split('\n\n'):
        m = re.match(r'goroutine \d+ .*\[[^]]*?(\d+) minutes', g)
        if m and int(m.group(1)) >= 3 and GATE in g and '(*Server)' not in g:
            return True
    return False


class Run:
    """State of one check: work directory, counters, violations."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        base = os.path.join(VERIF, 'work')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + '-', dir=base)
        self.env = dict(os.environ)
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh && env -0'], stdout=subprocess.PIPE, env=self.env)
        if out.returncode == 0:
            for kv in out.stdout.decode().split('\0'):
                if '=' in kv:
                    k, v = kv.split('=', 1)
                    self.env[k] = v
        self.env['TZ'] = 'Asia/Kamchatka'           # local time is not the protocol's time
        self.env['JAVA_TOOL_OPTIONS'] = '-Xss32m'   # deep recursion over long byte strings
        self.states = self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.notes = {}
        self.violations = []      # (prop, why, record)
        self.known = []           # (prop, why)
        self.tlc_runs = 0
        self.assumptions = []

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # -- building -----------------------------------------------------------
    def build(self, race=False):
        exe = self.path('egtsdrv')
        cmd = ['go', 'build'] + (['-race'] if race else []) + ['-o', exe, '.']
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=self.env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise Broken('building the driver against /repo failed:\n' + r.stdout.decode(errors='replace')[-3000:])
        self.exe = exe
        return exe

    def build_repo(self, pkg, name):
        exe = self.path(name)
        r = subprocess.run(['go', 'build', '-o', exe, pkg], cwd='/repo', env=self.env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise Broken('building %s failed:\n%s' % (pkg, r.stdout.decode(errors='replace')[-3000:]))
        return exe

    def drive(self, *args, timeout=None, ok=(0,)):
        """Run the driver. What ends it is a verdict when the code under test is to blame: a crash
        whose innermost frame outside the libraries is in egts-gate, or a call into it that hangs."""
        p = subprocess.Popen([self.exe] + [str(a) for a in args], env=self.env, cwd=self.dir,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        limit = timeout or (450 if self.tier == 'quick' else 1500)
        hung = False
        try:
            out, err = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            hung = True
            p.send_signal(signal.SIGQUIT)  # the Go runtime writes every goroutine's stack
            try:
                out, err = p.communicate(timeout=20)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
        text = err.decode(errors='replace')
        if hung:
            if stuck(text):
                raise Verdict('the code under test does not come to an end (driver %s)' % args[0], text)
            raise Broken('driver %s did not end in %d s:\n%s' % (args, limit, text[-3000:]))
        if p.returncode not in ok:
            m = re.search(r'^(panic|fatal error): (.*)', text, re.M)
            if m and blame(text[m.start():]):
                raise Verdict('the code under test crashed: %s' % m.group(2)[:150], text)
            raise Broken('driver %s failed (%d):\n%s' % (args, p.returncode, text[-3000:]))
        return subprocess.CompletedProcess(args, p.returncode, out, err)

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, consts, extra='', workers=8, timeout=800, args=(), ok_codes=(0,), count=True):
        """consts: dict of TLA+ text; extra: further cfg lines. Returns stdout."""
        self.tlc_runs += 1
        cfg = self.path('%s-%d.cfg' % (module, self.tlc_runs))
        with open(cfg, 'w') as f:
            if consts:
                f.write('CONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in consts.items()))
            f.write(extra)
        meta = self.path('meta-%d' % self.tlc_runs)
        r = subprocess.run(['tlc', '-workers', str(workers), '-metadir', meta, '-config', cfg, '-noGenerateSpecTE', *args, module + '.tla'],
                           cwd=SPEC, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout.decode(errors='replace')
        with open(self.path('%s-%d.log' % (module, self.tlc_runs)), 'w') as f:
            f.write(out)
        if r.returncode not in ok_codes:
            bad = [l for l in out.splitlines() if not l.startswith(('Linting', 'Semantic', 'Parsing'))]
            raise Broken('TLC on %s failed (%d):\n%s' % (module, r.returncode, '\n'.join(bad)[-4000:]))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m and count:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        return out

    def judge(self, module, consts, trace, extra, records=None, **kw):
        """Run a judging spec over a recorded trace and collect what it prints."""
        kw.setdefault('ok_codes', range(256))
        out = self.tlc(module, consts, extra, **kw)
        if 'Model checking completed. No error' not in out:
            odd = 'Attempted to' in out and 'evaluating the nested' in out
            self.collect(out, trace)
            if [v for v in self.violations if v[0] == self.pid]:
                return out  # judged as far as it went
            if odd:
                # what was recorded is not even of the shape the specification gives
                m = re.search(r'Attempted to[^\n]*', out)
                self.violations.append((self.pid, 'recorded behaviour has another shape than specified', 0, trace))
                self.notes['shape'] = m.group(0)[:300]
                return out
            raise Broken('judging with %s did not complete:\n%s' % (module, out[-3000:]))
        self.collect(out, trace)
        return out

    def collect(self, out, trace):
        got = re.findall(r'<<\s*"(VIOLATION|KNOWN)",\s*"(C\d+)",\s*(\d+),\s*"([^"]*)"\s*>>', out)
        if len(got) != len(re.findall(r'"(?:VIOLATION|KNOWN)"', out)):
            raise Broken('unreadable verdicts of %s' % module)
        for kind, prop, line, why in got:
            (self.violations if kind == 'VIOLATION' else self.known).append((prop, why, int(line), trace))

    # -- result -------------------------------------------------------------
    def finish(self, level='model_checking', record_of=None, extra=None):
        mine = [v for v in self.violations if v[0] == self.pid]
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples[:4] or ['none']}
        if self.evaluations:
            cov['evaluations'] = self.evaluations
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(mine)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set((k[0], k[1]) for k in self.known)):
            if k[0] == self.pid:
                print('KNOWN-FINDING: property=%s %s' % k)
        if not mine:
            print('%s held: %d states, %d traces (%.1f s)' % (self.pid, self.states, self.traces, time.time() - self.t0))
            return 0
        rdir = os.path.join(VERIF, 'work', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-%s-%d.json' % (self.pid, self.tier, self.seed))
        whys = {}
        for prop, why, line, trace in mine:
            whys.setdefault(why, []).append((line, trace))
        rep = []
        for why, where in sorted(whys.items()):
            line, trace = where[0]
            rep.append({'why': why, 'times': len(where), 'line': line,
                        'record': record_of(trace, line) if record_of else load_line(trace, line)})
        with open(rp, 'w') as f:
            json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'violations': rep}, f, indent=1)
        for r in rep[:8]:
            print('  %s (%d times)' % (r['why'], r['times']))
        print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        return 1


def load_line(path, n):
    try:
        with open(path) as f:
            for i, l in enumerate(f, 1):
                if i == n:
                    return json.loads(l)
    except Exception as e:
        return str(e)
    return None


def q(s):
    return json.dumps(s)


def tset(xs):
    return '{' + ', '.join(q(x) if isinstance(x, str) else str(x) for x in xs) + '}'


def known_findings():
    """why-keys of the findings that are recorded and not repaired"""
    res = []
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'KNOWN property=(C\d+) key=(\S+)', l)
        if m:
            res.append((m.group(1), m.group(2)))
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import families
    run = Run(pid, tier, seed)
    try:
        rc = families.FAMILIES[pid](run)
    except Verdict as e:
        path = run.path('crash.txt')
        with open(path, 'w') as f:
            json.dump(e.text[-20000:], f)
        run.violations.append((pid, e.why, 1, path))
        rc = run.finish()
    except Broken as e:
        print('CHECK-BROKEN %s: %s' % (pid, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print('CHECK-BROKEN %s: %s' % (pid, e))
        return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(run.dir, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main())
