"""Shared machinery of the checks: running TLC, running the real code in both
interpreters, judging recorded traces with the specification, reporting."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
VENVS = {'lxml': '/opt/venv/bin/python', 'std': '/opt/venv-nolxml/bin/python'}
TLA = '/opt/veriftools/tla/'
NCPU = min(8, os.cpu_count() or 4)


class Machinery(Exception):
    """The check itself could not run: neither a pass nor a violation."""


def unescape_tlc(s):
    return json.loads(s)


class TLCRun:
    def __init__(self, out, wall):
        self.out = out
        self.wall = wall
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated = int(m.group(1).replace(',', '')) if m else 0
        self.distinct = int(m.group(2).replace(',', '')) if m else 0
        self.finished = 'Model checking completed' in out
        self.records = []
        for line in out.splitlines():
            # PrintT(<<"@@X", ToJson(v)>>) gives <<"@@X", "escaped json">>
            m = re.match(r'<<"(@@\w+)", (".*")>>$', line)
            if m:
                self.records.append((m.group(1), json.loads(json.loads(m.group(2)))))

    def tagged(self, tag):
        return [v for t, v in self.records if t == tag]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.states = self.transitions = self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.bad = []          # dicts describing violations
        self.pool = concurrent.futures.ThreadPoolExecutor(NCPU)
        self.known = []
        path = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(path):
            for k in json.load(open(path))['findings']:
                if k['property'] == pid:
                    self.known.append(k)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, heap='3g', timeout=800, extra=(), must_finish=True,
            count=True):
        d = tempfile.mkdtemp(dir=self.scratch)
        cfgf = os.path.join(d, 'm.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(2, workers // 2),
               '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + SPEC,
               '-cp', TLA + 'tla2tools.jar:' + TLA + 'CommunityModules-deps.jar', 'tlc2.TLC',
               '-config', cfgf, '-workers', str(workers), '-metadir', os.path.join(d, 'states'),
               '-noGenerateSpecTE', '-checkpoint', '0'] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d,
                               timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on ' + module)
        run = TLCRun(r.stdout, time.time() - t)
        shutil.rmtree(d, ignore_errors=True)
        lines = [x for x in r.stdout.splitlines() if not x.startswith('<<"@@')]
        if must_finish and (not run.finished or any(x.startswith('Error:') for x in lines)):
            lines = [x for x in lines if not x.startswith(('Parsing', 'Semantic', 'Linting'))]
            raise Machinery('TLC failed on %s:\n%s' % (module, '\n'.join(lines)[-1500:]))
        if count:
            self.states += run.distinct
            self.transitions += run.generated
        return run

    def proof(self, module, timeout=400):
        """Has TLAPS check a proof of spec/proofs (about the specification alone, for instances of every size)."""
        for stretch in ('1', '5'):
            d = tempfile.mkdtemp(dir=self.scratch)
            shutil.copy(os.path.join(SPEC, 'proofs', module + '.tla'), d)
            try:
                r = subprocess.run(['tlapm', '--threads', '4', '--stretch', stretch, module + '.tla'], cwd=d, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
            except subprocess.TimeoutExpired:
                raise Machinery('tlapm timed out on ' + module)
            shutil.rmtree(d, ignore_errors=True)
            n = re.search(r'All (\d+) obligations? proved', r.stdout)
            if n and r.returncode == 0:
                self.notes['proof_obligations_' + module] = int(n.group(1))
                return
        raise Machinery('tlapm does not prove %s:\n%s' % (module, r.stdout[-1500:]))

    # ------------------------------------------------------------- real code
    def run_worker(self, venv, lines, opts=(), timeout=800):
        """Runs JSON-able cases in one process of the real code; returns the lines with results."""
        d = tempfile.mkdtemp(dir=self.scratch)
        src, dst = os.path.join(d, 'in'), os.path.join(d, 'out')
        with open(src, 'w') as f:
            for x in lines:
                f.write(json.dumps(x) + '\n')
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(d, 'pyc'),
                   PYTHONHASHSEED=str(self.seed % 1000), TMPDIR=d, LC_ALL='C.UTF-8', HOME=d)
        try:
            r = subprocess.run([VENVS[venv], '-W', 'ignore', os.path.join(VERIF, 'harness', 'worker.py'), src, dst]
                               + list(opts), env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise Machinery('worker timed out (%s)' % venv)
        if r.returncode != 0:
            raise Machinery('worker failed (%s):\n%s' % (venv, r.stdout[-1500:]))
        with open(dst) as f:
            out = [json.loads(x) for x in f]
        if len(out) != len(lines):
            raise Machinery('worker lost lines')
        shutil.rmtree(d, ignore_errors=True)
        return out

    def run_both(self, lines, shards=4, opts=(), venvs=('lxml', 'std'), chunk=None):
        """Every case in both interpreters.  Results as {venv: [...]} in order."""
        def split(n):
            k = max(1, min(shards, (n + 19) // 20))
            return [(n * i // k, n * (i + 1) // k) for i in range(k)]
        futs = []
        for v in venvs:
            for a, b in split(len(lines)):
                futs.append((v, self.pool.submit(self.run_worker, v, lines[a:b], opts)))
        res = {v: [] for v in venvs}
        for v, f in futs:
            res[v] += f.result()
        return res

    # ------------------------------------------------------ trace validation
    def validate(self, module, lines, cfg=None, shards=8, min_shard=300, heap='2g', what='', env=None):
        """Judge recorded lines with the specification: every line is one behaviour.
        The trace module prints @@BAD with [i, why] for a line it rejects."""
        if not lines:
            return []
        cfg = cfg or 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        k = max(1, min(shards, len(lines) // min_shard))
        n = len(lines)
        cuts = [(n * i // k, n * (i + 1) // k) for i in range(k)]

        def one(a, b):
            fd, path = tempfile.mkstemp(dir=self.scratch, suffix='.ndjson')
            with os.fdopen(fd, 'w') as f:
                for x in lines[a:b]:
                    f.write(json.dumps(x) + '\n')
            e = dict(env or {}, TRACE=path)
            r = self.tlc(module, cfg, env=e, heap=heap, count=False)
            done = r.tagged('@@DONE')
            if not done or done[0] != b - a:
                raise Machinery('trace validation of %s did not reach the end: %r of %d\n%s'
                                % (module, done, b - a, r.out[-1500:]))
            os.unlink(path)
            return r, [(a + x['i'] - 1, x['why']) for x in r.tagged('@@BAD')]
        bad = []
        for r, bs in self.pool.map(lambda ab: one(*ab), cuts):
            self.states += r.distinct
            self.transitions += r.generated
            bad += bs
        self.traces += n
        for i, why in bad:
            self.bad.append({'what': what or module, 'why': why, 'case': lines[i]})
        return bad

    def violation(self, what, why, case):
        self.bad.append({'what': what, 'why': why, 'case': case})

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    # -------------------------------------------------------------- verdict
    def finish(self, assumptions=()):
        for d in list(self.bad):
            for k in self.known:
                if known_match(k, d):
                    k['_hit'] = k.get('_hit', 0) + 1
                    self.bad.remove(d)
                    break
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        samples = self.samples or ['(none)']
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': samples}
        cov.update(self.notes)
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
                       'coverage': cov, 'assumptions': list(assumptions),
                       'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.bad)}, f, indent=1)
        stale = os.path.join(ev, 'replay', self.pid + '.json')
        if os.path.exists(stale):
            os.unlink(stale)
        if self.bad:
            rd = os.path.join(ev, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s.json' % self.pid)
            self.bad.sort(key=lambda b: len(json.dumps(b)))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier,
                           'violations': self.bad[:20], 'total': len(self.bad)}, f, indent=1)
            for b in self.bad[:3]:
                print('  %s: %s' % (b['what'], str(b['why'])[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('OK property=%s states=%d traces=%d wall=%.1fs' % (self.pid, self.states, self.traces,
                                                                time.time() - self.t0))
        return 0

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.scratch, ignore_errors=True)


def known_match(k, d):
    """A finding is identified by the trace module's reason and the exact case tag."""
    return d['what'] == k['where'] and d['why'] == k['why'] and d['case'].get('tag') == k.get('tag')


def main(checks):
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(pid, tier, seed)
    try:
        checks[pid](c)
        rc = c.finish(getattr(checks[pid], 'assumptions', ()))
    except Machinery as e:
        print('MACHINERY: %s' % e, file=sys.stderr)
        rc = 3
    finally:
        c.close()
    sys.stdout.flush()
    os._exit(rc)
