"""Machinery shared by all checks: building the harness, running it and TLC, reporting."""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
WORK = os.path.join(VERIF, 'work')
REPLAY = os.path.join(VERIF, 'replay')
BIN = os.path.join(HARNESS, 'target', 'debug', 'vharness')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery itself failed; says nothing about the property."""


def log(*a):
    print(*a, flush=True)


def repo_hash():
    """Everything of /repo the harness is built from."""
    h = hashlib.sha256()
    files = ['/repo/Cargo.toml']
    for d, ds, fs in os.walk('/repo/src'):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def build():
    """Build the harness, and with it /repo's current working tree."""
    t = time.time()
    stamp = os.path.join(HARNESS, 'target', 'repo.sha256')
    now = repo_hash()
    try:
        with open(stamp) as f:
            same = f.read() == now
    except OSError:
        same = False
    if not same and os.path.exists(os.path.dirname(stamp)):
        # cargo goes by modification times, which a checkout need not advance
        subprocess.run(['cargo', 'clean', '--offline', '-q', '-p', 'async-tiff', '-p', 'vharness'],
                       cwd=HARNESS, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env={**os.environ, 'CARGO_TARGET_DIR': os.path.join(HARNESS, 'target')})
    r = subprocess.run(['cargo', 'build', '--offline', '--locked', '-q'], cwd=HARNESS,
                       env={**os.environ, 'CARGO_TARGET_DIR': os.path.join(HARNESS, 'target')},
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError('harness build failed:\n' + r.stdout[-4000:])
    with open(stamp, 'w') as f:
        f.write(now)
    log(f'built harness in {time.time() - t:.1f}s')


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.work = os.path.join(WORK, f'{prop}-{os.getpid()}')
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'samples': [], 'design_models': [], 'conformance': []}
        self.assumptions = []
        self.violations = []      # (kind, description, data)
        self.known = []           # lines to print
        self.exhaustive = None

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=600, heap='4g', extra=(), name=None):
        """Run TLC on spec/<module>.tla; cfg is the text of the configuration."""
        name = name or module
        cfgfile = os.path.join(self.work, name + '.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        meta = os.path.join(self.work, 'states-' + name)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', TLA_CP, 'tlc2.TLC',
               '-workers', str(workers or CORES), '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfgfile, *extra, os.path.join(SPEC, module + '.tla')]
        out = os.path.join(self.work, name + '.out')
        t = time.time()
        with open(out, 'w') as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=f,
                                   stderr=subprocess.STDOUT, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                raise ToolError(f'TLC on {name} exceeded {timeout}s')
        shutil.rmtree(meta, ignore_errors=True)
        res = TlcResult(name, rc, out, time.time() - t)
        return res

    def design(self, module, cfg, what, **kw):
        """Model-check a design model: every invariant and property of cfg has to hold."""
        res = self.tlc(module, cfg, **kw)
        if res.rc != 0 or not res.done:
            raise ToolError(f'design model {res.name} does not check (rc {res.rc}); see {res.out}\n'
                            + res.tail())
        self.cov['states'] += res.distinct
        self.cov['transitions'] += res.generated
        self.cov['design_models'].append({
            'module': res.name, 'what': what, 'states': res.distinct,
            'transitions': res.generated, 'seconds': round(res.secs, 1)})
        log(f'design model {res.name}: {res.distinct} states, {res.generated} transitions, '
            f'{res.secs:.1f}s')
        return res

    def rejects(self, module, cfg, **kw):
        """The model of a broken design has to be rejected, else its properties say nothing."""
        res = self.tlc(module, cfg, **kw)
        if 'is violated' not in res.text():
            raise ToolError(f'the broken design {res.name} was not rejected; see {res.out}')
        self.cov.setdefault('broken_designs_rejected', []).append(res.name)

    # ------------------------------------------------------------ harness
    def run(self, cmd, cases, stall=30, shards=None):
        """Execute cases; returns observations in order. A crash or stall is an observation."""
        shards = min(shards or CORES, max(1, len(cases)))
        parts = [cases[i::shards] for i in range(shards)]
        results = [None] * shards

        def work(k):
            results[k] = self._run_shard(cmd, parts[k], k, stall)
        ts = [threading.Thread(target=work, args=(k,)) for k in range(shards)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        out = [None] * len(cases)
        for k in range(shards):
            if isinstance(results[k], Exception):
                raise results[k]
            for n, o in enumerate(results[k]):
                out[k + n * shards] = o
        return out

    def _run_shard(self, cmd, cases, k, stall):
        try:
            inp = os.path.join(self.work, f'{cmd}-{k}.in')
            outp = os.path.join(self.work, f'{cmd}-{k}.obs')
            if os.path.exists(outp):
                os.remove(outp)
            with open(inp, 'w') as f:
                for c in cases:
                    f.write(json.dumps(c, separators=(',', ':')) + '\n')
            obs = []
            crashes = 0
            while len(obs) < len(cases):
                open(outp, 'w').close()
                p = subprocess.Popen([BIN, cmd, inp, outp, str(len(obs))],
                                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                     preexec_fn=_limits, cwd=self.work)
                size, last = 0, time.time()
                why = None
                while True:
                    try:
                        p.wait(0.05 if time.time() - last < 2 else 0.5)
                        break
                    except subprocess.TimeoutExpired:
                        s = os.path.getsize(outp)
                        if s != size:
                            size, last = s, time.time()
                        elif time.time() - last > stall:
                            p.kill()
                            p.wait()
                            why = 'timeout'
                            break
                err = p.stderr.read().decode(errors='replace')
                p.stderr.close()
                with open(outp) as f:
                    for line in f:
                        if line.endswith('\n'):
                            obs.append(json.loads(line))
                if len(obs) < len(cases):
                    if why is None and p.returncode == 0:
                        raise ToolError(f'harness {cmd} stopped early')
                    if why is None and p.returncode == 77:
                        # a codec asked for the memory its compressed data claim: not judged
                        obs.append({**cases[len(obs)], 'skipped': True})
                        continue
                    if why is None and p.returncode > 0 and p.returncode != 134:
                        raise ToolError(f'harness {cmd} failed ({p.returncode}) on case '
                                        f'{json.dumps(cases[len(obs)])[:400]}: {err[-1500:]}')
                    o = dict(cases[len(obs)])
                    o['crash'] = why or f'aborted by signal {-p.returncode}: {err[-300:]}'
                    obs.append(o)
                    crashes += 1
                    if crashes > 5:
                        # enough evidence; do not try the remaining cases
                        for c in cases[len(obs):]:
                            obs.append({**c, 'skipped': True})
            return obs
        except Exception as e:           # noqa: re-raised by the caller
            return e

    # ----------------------------------------------------------- validate
    def validate(self, module, obs, what, cfg_extra='', consts='', timeout=700, cases=None,
                 heap='8g', weight=lambda o: 1):
        """Let TLC decide which observations the specification allows."""
        good = []
        for o in obs:
            if o.get('skipped'):
                continue
            if 'crash' in o:
                self.violations.append((what, f'crash: {o["crash"]}', o))
            else:
                good.append(o)
        n = len(good)
        mism = []
        if n:
            path = os.path.join(self.work, f'{module}-{len(self.cov["conformance"])}.ndjson')
            with open(path, 'w') as f:
                for i, o in enumerate(good):
                    o['n'] = i + 1
                    f.write(json.dumps(o, separators=(',', ':')) + '\n')
            cfg = f'INIT Init\nNEXT Next\nINVARIANT Judge\nPOSTCONDITION AllJudged\n' \
                  f'CHECK_DEADLOCK FALSE\n{consts}\n{cfg_extra}'
            res = self.tlc(module, cfg, env={'OBS': path, 'WIDTH': str(CORES)}, timeout=timeout,
                           heap=heap, name=f'{module}-{len(self.cov["conformance"])}')
            if res.rc != 0 or not res.done:
                raise ToolError(f'{module} did not judge all observations (rc {res.rc}); '
                                f'see {res.out}\n' + res.tail())
            mism = sorted(set(int(m) for m in re.findall(r'MISMATCH"?, (\d+)', res.text())))
            for m in mism:
                self.violations.append((what, f'{module}: observation not allowed', good[m - 1]))
            self.cov['states'] += res.distinct
            self.cov['transitions'] += res.generated
            self.cov['traces_validated_against_impl'] += n
            self.cov['conformance'].append({
                'module': module, 'what': what, 'observations': n, 'mismatches': len(mism),
                'seconds': round(res.secs, 1)})
            if good:
                s = json.dumps(good[len(good) // 2])
                self.cov['samples'].append(json.loads(s) if len(s) < 2000 else s[:2000])
            log(f'{what}: {n} observations judged by {module}, {len(mism)} mismatches, '
                f'{res.secs:.1f}s')
        return mism

    # ------------------------------------------------------------- finish
    def finish(self, known_filter=None):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(self.cov)
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 1),
              'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            log(k)
        if self.violations:
            os.makedirs(REPLAY, exist_ok=True)
            path = os.path.join(REPLAY, f'{self.prop}.json')
            with open(path, 'w') as f:
                json.dump([{'what': w, 'why': y, 'data': d} for w, y, d in self.violations[:20]], f)
            for w, y, d in self.violations[:3]:
                log(f'  {w}: {y}: {json.dumps(d)[:700]}')
            log(f'VIOLATION property={self.prop} replay={path}')
            shutil.rmtree(self.work, ignore_errors=True)
            return 1
        shutil.rmtree(self.work, ignore_errors=True)
        log(f'{self.prop}: held on everything explored ({wall:.0f}s)')
        return 0


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class TlcResult:
    def __init__(self, name, rc, out, secs):
        self.name, self.rc, self.out, self.secs = name, rc, out, secs
        t = self.text()
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', t)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.done = 'Model checking completed. No error has been found' in t or \
            ('simulat' in t.lower() and rc == 0)

    def text(self):
        with open(self.out, errors='replace') as f:
            return f.read()

    def tail(self, n=3000):
        return self.text()[-n:]

    def json(self):
        """The values printed with PrintT(ToJson(..))."""
        out = []
        with open(self.out) as f:
            for line in f:
                if line.startswith('"{') or line.startswith('"['):
                    out.append(json.loads(json.loads(line)))
        return out
