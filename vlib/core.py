"""Common machinery of the checks: build batoid, run TLC, run drivers, judge.

A check is   model(...)*  generate(...)*  drive(...)  validate(...)*  finish().
 * model     TLC explores a specification exhaustively at small constants.
 * generate  TLC writes scenarios (ndjson) from the specification.
 * drive     a driver replays them into the real code (public API) and logs records.
 * validate  TLC evaluates the specification on every record and prints one
             VERDICT line per record that the specification rejects.
Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 the machinery failed.
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
SPECS = os.path.join(ROOT, 'specs')


class MachineryError(Exception):
    pass


def sh_env():
    """Environment of /opt/vp/env.sh (or its documented equivalent)."""
    env = dict(os.environ)
    env.update(HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', CC='gcc', CXX='g++',
               PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               PIP_NO_INDEX='1', SETUPTOOLS_SCM_PRETEND_VERSION='0.7.0',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               CMAKE_PREFIX_PATH='/opt/venv', OMP_NUM_THREADS='2',
               OMP_WAIT_POLICY='passive', OPENBLAS_NUM_THREADS='1')
    for k in ('PYTHONPATH', 'BATOID_GPU', 'CMAKE_COVER', 'JAVA_TOOL_OPTIONS'):
        env.pop(k, None)
    return env


def say(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.work = os.path.join(ROOT, '.work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.bad = []          # dicts: clause(s), record, file
        self.extra = {}
        self.models = []
        self.known = []
        kf = os.path.join(ROOT, 'known_findings.json')
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop]
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ build
    def build(self):
        lock = open('/tmp/.verif-build.lock', 'w')
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            if os.path.exists('/opt/vp/build.sh'):
                cmd = ['bash', '/opt/vp/build.sh']
            else:
                cmd = ['/opt/venv/bin/python', 'setup.py', 'build_ext', '--inplace']
            r = subprocess.run(cmd, cwd=REPO, env=sh_env(), capture_output=True, text=True)
            if r.returncode != 0:
                raise MachineryError('build of /repo failed:\n' + (r.stdout + r.stderr)[-3000:])
            self.classes = os.path.join(ROOT, '.work', 'classes')
            src = sorted(os.path.join(ROOT, 'java', f) for f in os.listdir(os.path.join(ROOT, 'java')) if f.endswith('.java'))
            h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in src)).hexdigest()
            stamp = os.path.join(self.classes, 'stamp')
            if not (os.path.exists(stamp) and open(stamp).read() == h):
                shutil.rmtree(self.classes, ignore_errors=True)
                os.makedirs(self.classes)
                r = subprocess.run(['javac', '-cp', CP, '-d', self.classes] + src, capture_output=True, text=True)
                if r.returncode != 0:
                    raise MachineryError('javac failed:\n' + r.stderr)
                open(stamp, 'w').write(h)
        finally:
            fcntl.flock(lock, fcntl.LOCK_UN)

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, extra=(), heap='6g', timeout=800, simulate=False):
        """cfg: text of the configuration. Returns the output text."""
        d = os.path.join(self.work, 'tlc-%s-%d' % (module, len(os.listdir(self.work))))
        os.makedirs(d)
        cfgf = os.path.join(d, module + '.cfg')
        open(cfgf, 'w').write(cfg)
        e = sh_env()
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPECS,
               '-cp', self.classes + ':' + CP, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-seed', str(self.seed),
               '-config', cfgf, *extra, os.path.join(SPECS, module + '.tla')]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on ' + module)
        open(os.path.join(d, 'out.txt'), 'w').write(r.stdout + r.stderr)
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        return r.returncode, re.sub(r'(?m)^(Loading|Semantic|Parsing) .*\n', '', r.stdout) + r.stderr

    @staticmethod
    def counts(out):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if not m:
            raise MachineryError('no state count in TLC output:\n' + out[-3000:])
        return int(m[-1][0]), int(m[-1][1])

    def model(self, module, cfg, env=None, min_states=2, what='', extra=()):
        """Exhaustive check of a specification; a failure is a fault of the specification."""
        rc, out = self.tlc(module, cfg, env, extra=extra)
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError(f'model {module} does not hold:\n' + out[-4000:])
        g, d = self.counts(out)
        if d < min_states:
            raise MachineryError(f'model {module} explored only {d} states')
        self.states += d
        self.transitions += g
        self.models.append({'model': module, 'what': what, 'distinct_states': d, 'states_generated': g})
        say(f'  model {module}: {d} distinct states, {g} generated')

    def generate(self, module, name, env=None, cfg='', min_lines=1):
        """Run a generator module; it writes ndjson to IOEnv.OUT."""
        out = os.path.join(self.work, name)
        e = {'OUT': out, 'SEED': str(self.seed), 'TIER': self.tier}
        e.update({k: str(v) for k, v in (env or {}).items()})
        rc, txt = self.tlc(module, cfg, e, workers=1)
        if rc != 0 or not os.path.exists(out):
            raise MachineryError(f'generator {module} failed:\n' + txt[-4000:])
        k = sum(1 for _ in open(out))
        if k < min_lines:
            raise MachineryError(f'generator {module} wrote {k} lines')
        say(f'  generated {k} scenarios by {module}')
        return out

    # ----------------------------------------------------------------- driver
    def drive(self, driver, scen=None, name='rec.ndjson', env=None, args=(), timeout=600):
        out = os.path.join(self.work, name)
        e = sh_env()
        e['PYTHONPATH'] = ROOT
        e['VERIF_SEED'] = str(self.seed)
        e['VERIF_TIER'] = self.tier
        e.update(env or {})
        cmd = ['/opt/venv/bin/python', '-X', 'faulthandler', '-m', 'drivers.' + driver, scen or '-', out, *map(str, args)]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            r = None
        if r is None or r.returncode < 0:
            why = 'no answer within %d s' % timeout if r is None else 'killed by signal %d' % -r.returncode
            last = ''
            cur = out + '.current'
            if os.path.exists(cur):
                last = open(cur).read()
            tail = '' if r is None else r.stderr[-2000:]
            self.bad.append({'clauses': ['the code under test ' + why], 'record': {'scenario': last, 'stderr': tail}, 'tag': ''})
            if not os.path.exists(out):
                open(out, 'w').close()
            return out
        if r.returncode != 0:
            last = r.stderr.strip().splitlines()[-1][:200].replace('"', "'") if r.stderr.strip() else ''
            files = re.findall(r'File "([^"]+)", line', r.stderr)
            inside = any(f.startswith(REPO + '/batoid/') for f in files)      # raised inside the code under test
            # A driver only uses public API and never fails on the unchanged tree: an answer it cannot
            # digest (a missing attribute, None for an array, another shape) is a wrong answer.
            shape = re.match(r'(AttributeError|TypeError|ValueError|IndexError|KeyError|AssertionError|ZeroDivisionError|OverflowError|RecursionError)\b', last)
            if inside or shape:
                cur = out + '.current'
                self.bad.append({'clauses': [('unexpected exception: ' if inside else 'unusable answer: ') + last],
                                 'record': {'scenario': open(cur).read() if os.path.exists(cur) else '', 'stderr': r.stderr[-2500:]}, 'tag': ''})
                if not os.path.exists(out):
                    open(out, 'w').close()
                return out
            raise MachineryError(f'driver {driver} failed:\n' + r.stdout[-1500:] + r.stderr[-4000:])
        k = sum(1 for _ in open(out))
        say(f'  driver {driver}: {k} records in {time.time()-t:.1f} s')
        if r.stdout.strip():
            say('   ', r.stdout.strip()[-600:])
        return out

    # --------------------------------------------------------------- validate
    def validate(self, module, rec, cfg=None, env=None, count=None, extra_cfg=''):
        """TLC evaluates the specification on every record of the file rec."""
        recs = [l for l in open(rec)]
        if not recs:
            if self.bad:
                return
            raise MachineryError('no records to validate')
        e = {'RECS': rec}
        e.update({k: str(v) for k, v in (env or {}).items()})
        if cfg is None:
            cfg = 'INIT Init\nNEXT Next\nINVARIANT Judged\nCHECK_DEADLOCK FALSE\n' + extra_cfg
        t = time.time()
        rc, out = self.tlc(module, cfg, e)
        def verdicts():
            n = 0
            for m in re.finditer(r'"VERDICT\|(\d+)\|(.*)"', out):
                n += 1
                i, cl = int(m.group(1)), m.group(2).replace('\\"', '"')
                r = json.loads(recs[i - 1])
                self.bad.append({'clauses': sorted(set(re.findall(r'"([^"]*)"', cl))) or [cl], 'record': r,
                                 'tag': r.get('tag', ''), 'module': module, 'line': i})
            return n
        if rc != 0 or 'No error has been found' not in out:
            if verdicts():          # records rejected before the evaluation stopped
                say(f'  validation of {module} stopped after rejecting records: ' + ' '.join(re.findall(r'(?m)^Error: .*', out))[:300])
            # A record whose values are not of the specification's types (null for a name, say): TLC cannot
            # evaluate a clause on it.  No record of the unchanged tree is of that kind.
            m = re.search(r'(?m)^(Attempted to .*|Overflow when computing.*|.* was not in the domain .*|.*non-enumerable.*|.*is not a .*|.*null.*)$', out)
            if m and not re.search(r'OutOfMemory|StackOverflow|No space left|Java heap', out):
                s = re.search(r'(?m)^(?:/\\ )?i = (\d+)', out)
                i = int(s.group(1)) if s else 0
                self.bad.append({'clauses': ['record outside the types of the specification: ' + m.group(1)[:160].replace('"', "'")],
                                 'record': json.loads(recs[i - 1]) if 0 < i <= len(recs) else {'tlc': out[-1500:]}, 'tag': '', 'module': module, 'line': i})
                return
            if self.news():
                return
            raise MachineryError(f'validation {module} did not complete:\n' + out[-5000:])
        g, d = self.counts(out)
        want = len(recs) if count is None else count
        if d != want:
            raise MachineryError(f'validation {module}: {d} states judged, expected {want}')
        self.states += d
        self.transitions += g
        self.traces += len(recs)
        nv = verdicts()
        if len(self.samples) < 4:
            for l in (recs[0], recs[len(recs) // 2]):
                self.samples.append({'module': module, 'record': json.loads(l) if len(l) < 4000 else l[:4000]})
        say(f'  validated {len(recs)} records ({d} states) against {module} in {time.time()-t:.1f} s, {nv} rejected')

    # ----------------------------------------------------------------- finish
    def known_as(self, b):
        for k in self.known:
            if b['tag'] == k['tag'] and set(b['clauses']) <= set(k['clauses']):
                return k

    def news(self):
        return [b for b in self.bad if self.known_as(b) is None]

    def finish(self):
        news = []
        for b in self.bad:
            hit = self.known_as(b)
            if hit is not None:
                self.known_hit.setdefault(hit['tag'] + '|' + hit['what'], 0)
                self.known_hit[hit['tag'] + '|' + hit['what']] += 1
            else:
                news.append(b)
        for k in self.known:
            c = self.known_hit.get(k['tag'] + '|' + k['what'], 0)
            if c:
                say(f"KNOWN-FINDING: property={self.prop} {k['what']} ({c} records, tag {k['tag']})")
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'samples': self.samples[:4], 'models': self.models, **self.extra,
            },
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(news),
        }
        evd = os.path.join(ROOT, 'evidence')
        os.makedirs(evd, exist_ok=True)
        rp = os.path.join(evd, 'replay-' + self.prop + '.json')
        if os.path.exists(rp):
            os.remove(rp)
        with open(os.path.join(evd, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if news:
            with open(rp, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                           'count': len(news), 'rejected': news[:20]}, f, indent=1)
            hist = {}
            for b in news:
                for c in b['clauses']:
                    hist[c] = hist.get(c, 0) + 1
            for c in sorted(hist, key=lambda c: -hist[c])[:12]:
                say(f'    {hist[c]:6d} x {c}')
            b = news[0]
            txt = json.dumps(b['record'])
            say('    first:', b['clauses'], txt[:1500])
            say(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        say(f'OK property={self.prop} states={self.states} traces={self.traces} wall={time.time()-self.t0:.1f}s')
        return 0


def main(prop, run):
    ck = Check(prop)
    try:
        ck.build()
        run(ck)
        rc = ck.finish()
    except MachineryError as e:
        say('MACHINERY ERROR:', e)
        rc = 2
    if rc != 2:
        keep = os.environ.get('VERIF_KEEP')
        if not keep:
            shutil.rmtree(ck.work, ignore_errors=True)
    return rc
