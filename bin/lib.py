"""Machinery shared by the checks: building the recorder from /repo's working
tree, running it, running TLC, and validating recorded traces."""
import concurrent.futures, hashlib, json, os, posixpath, random, re, shutil, signal
import subprocess, sys, tempfile, threading, time, datetime

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLACP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
HIDDEN = ['astro_moon.go', 'cal_day.go', 'calendar_event.go', 'event.go', 'half_moon.go',
          'major_event.go', 'uposatha_moon.go']
WORKERS = 8


class Broken(Exception):
    """The check itself could not be carried out (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def pid1_time():
    return time.time()


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='suriya-verif-')
        self.lock = threading.Lock()
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.models, self.samples, self.notes = [], [], {}
        self.bins = {}
        self.procs = set()
        self.n = 0

    # -- scratch -----------------------------------------------------------
    def path(self, *p):
        return os.path.join(self.dir, *p)

    def sub(self, name):
        with self.lock:
            self.n += 1
            d = self.path('%s.%d' % (name, self.n))
        os.makedirs(d)
        return d

    def cleanup(self):
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cmd, timeout, cwd=None, env=None, stdout=None, stderr=None):
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=stdout or subprocess.PIPE,
                             stderr=stderr or subprocess.PIPE, start_new_session=True)
        self.procs.add(p)
        try:
            out, err = p.communicate(timeout=timeout)
            return p.returncode, (out or b'').decode('utf8', 'replace'), (err or b'').decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, '', ''
        finally:
            self.procs.discard(p)

    # -- building ----------------------------------------------------------
    def goenv(self, cgo='0'):
        e = {k: v for k, v in os.environ.items() if not k.startswith('GO') and not k.startswith('CGO')}
        e.update(GO111MODULE='off', GOPATH=self.path('gopath'), GOFLAGS='', GOCACHE=self.path('gocache'),
                 CGO_ENABLED=cgo, GOTOOLCHAIN='local', GOENV='off', GOPROXY='off', HOME=self.dir,
                 PATH=os.environ.get('PATH', '') + ':/usr/local/go/bin')
        return e

    def prepare(self):
        if os.path.isdir(self.path('gopath')):
            return
        src = self.path('gopath', 'src')
        shutil.copytree(os.path.join(VERIF, 'harness', 'stubs', 'src'), src)
        shutil.copytree(os.path.join(VERIF, 'harness', 'drv'), os.path.join(src, 'drv'))
        os.makedirs(os.path.join(src, 'github.com', 'splendidmoons'))
        os.symlink(REPO, os.path.join(src, 'github.com', 'splendidmoons', 'suriya-go'))
        for c in ('/opt/vp/gocache',):
            if os.path.isdir(c):
                shutil.copytree(c, self.path('gocache'))
                break

    def build(self, what='core'):
        """core: the recorder for the files that build with what is installed.
        full: the recorder for all files (with the stub packages)."""
        self.prepare()
        src = self.path('gopath', 'src')
        pkg = os.path.join(src, 'github.com', 'splendidmoons', 'suriya-go')
        out = self.path(what)
        if what in ('core', 'full'):
            rc, o, e = self.run(['go', 'build', '-tags', 'full', '-o', out, '.'], 300, os.path.join(src, 'drv'), self.goenv())
            if rc != 0 and what == 'core':
                ov = self.path('overlay.json')
                rep = {}
                for f in HIDDEN:
                    rep[os.path.join(pkg, f)] = ''
                    rep[os.path.join(REPO, f)] = ''
                json.dump({'Replace': rep}, open(ov, 'w'))
                rc, o, e = self.run(['go', 'build', '-overlay', ov, '-o', out, '.'], 300, os.path.join(src, 'drv'), self.goenv())
        elif what == 'race':
            rc, o, e = self.run(['go', 'build', '-race', '-tags', 'full', '-o', out, '.'], 600, os.path.join(src, 'drv'), self.goenv('1'))
        elif what == 'cli':
            rc, o, e = self.run(['go', 'build', '-o', out, './suriya'], 300, pkg, self.goenv())
        elif what == 'csv':
            rc, o, e = self.run(['go', 'build', '-o', out, './utils'], 300, pkg, self.goenv())
        if rc != 0:
            raise Broken('cannot build %s:\n%s%s' % (what, o, e))
        self.bins[what] = out
        return out

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=800, extra=(), heap='1500m'):
        d = self.sub('tlc')
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        open(os.path.join(d, 'run.cfg'), 'w').write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss16m', '-Xmx' + heap, '-Djava.io.tmpdir=' + d, '-cp', TLACP,
               'tlc2.TLC', '-noTE', '-metadir', os.path.join(d, 'md'), '-workers', str(workers),
               '-config', 'run.cfg'] + list(extra) + [module + '.tla']
        rc, o, er = self.run(cmd, timeout, d, e)
        shutil.rmtree(d, ignore_errors=True)
        if rc is None:
            raise Broken('TLC ran out of time on %s' % module)
        m = re.findall(r'^([\d,]+) states generated, ([\d,]+) distinct states found', o, re.M)
        gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        if not m:
            m = re.search(r'The number of states generated: ([\d,]+)', o)
            gen = dist = int(m.group(1).replace(',', '')) if m else 0
        return rc, o + er, gen, dist

    def model(self, name, module, cfg, workers=2, timeout=800, extra=(), heap='1500m'):
        """Model checking of the specification: it must pass."""
        t = time.time()
        rc, o, gen, dist = self.tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, heap=heap)
        if rc != 0 or dist == 0 and 'simulate' not in ' '.join(extra):
            raise Broken('the specification does not hold in %s:\n%s' % (name, o[-3000:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({'model': name, 'distinct_states': dist, 'states_generated': gen,
                                'seconds': round(time.time() - t, 1)})
        return o

    def world(self, data=None):
        w = self.path('world.json')
        if not os.path.exists(w):
            json.dump(read_world(), open(w, 'w'))
        return w

    # -- recording ---------------------------------------------------------
    def zone(self, what):
        """The zone of the place the program runs at: it must not matter.
        (The same for the same operations.)"""
        n = int(hashlib.sha256(json.dumps(what, sort_keys=True).encode()).hexdigest()[:8], 16)
        z = ['UTC', 'Asia/Bangkok', 'America/New_York', 'Pacific/Chatham'][n % 4]
        e = {'TZ': z}
        zi = os.path.join(goroot(), 'lib', 'time', 'zoneinfo.zip')
        if os.path.exists(zi):
            e['ZONEINFO'] = zi
        return e

    def decoy(self, d):
        """Other data where the program runs: what is embedded must be used."""
        with self.lock:
            src = self.path('decoy')
            if not os.path.isdir(src):
                os.makedirs(os.path.join(src, 'data', 'astro'))
                for f in os.listdir(os.path.join(REPO, 'data', 'astro')):
                    open(os.path.join(src, 'data', 'astro', f), 'w').write('{"success":true,"error":null,"response":[]}')
        if not os.path.exists(os.path.join(d, 'data')):
            os.symlink(os.path.join(src, 'data'), os.path.join(d, 'data'))

    def record(self, ops, bin='full', cwd=None, journal=False, timeout=700, name='rec', handles=None):
        """Runs the recorder on operations; the lines of the trace, and how it ended."""
        d = self.sub(name)
        opf, trf = os.path.join(d, 'ops'), os.path.join(d, 'trace')
        with open(opf, 'w') as f:
            for o in ops:
                f.write(json.dumps(o, separators=(',', ':')) + '\n')
        env = {'PATH': os.environ.get('PATH', ''), 'HOME': d, 'GORACE': 'halt_on_error=0 exitcode=66 log_path=' + os.path.join(d, 'race')}
        env.update(self.zone(ops))
        if not cwd:
            self.decoy(d)
        if journal:
            env['DRV_JOURNAL'] = os.path.join(d, 'journal')
        cmd = [self.bins[bin], opf, trf]
        if handles:
            env['GOGC'] = 'off'
            cmd = ['sh', '-c', 'ulimit -n %d && exec "$0" "$@"' % handles] + cmd
        rc, o, e = self.run(cmd, timeout, cwd or d, env)
        res = {'rc': rc, 'err': e, 'trace': trf, 'dir': d, 'doing': None, 'race': None}
        if rc == 3:
            raise Broken('recorder: ' + e[-2000:])
        for f in os.listdir(d):
            if f.startswith('race.'):
                res['race'] = open(os.path.join(d, f)).read()
        if rc == 66 and res['race'] is not None:
            res['rc'] = 0
        if journal and os.path.exists(os.path.join(d, 'journal')):
            res['doing'] = open(os.path.join(d, 'journal')).read()
        return res

    def crashed(self, ops, bin, cwd, first):
        """The recorder died.  Find the operation and see that it dies again."""
        for _ in range(2):
            again = self.record(ops, bin, cwd, journal=True)
            if again['rc'] == 0:
                # A crash of the code under test that depends on the schedule
                # need not happen again; its own report says what it was.
                m = re.search(r'(fatal error: (concurrent|all goroutines|sync:)|panic: |SIGSEGV)[^\n]*', first['err'])
                if first['rc'] == 2 and m and 'suriya-go' in first['err'] and 'out of memory' not in first['err']:
                    return {'panic': 'crash: ' + m.group(0), 'r': {}, 'ev': 'unknown'}, first['err'][-4000:]
                raise Broken('the recorder died once (%s) and did not again:\n%s' % (first['rc'], first['err'][-2000:]))
        err = again['err']
        if 'out of memory' in err or again['rc'] is None or again['rc'] < 0:
            raise Broken('the recorder was ended (%s):\n%s' % (again['rc'], err[-2000:]))
        if again['rc'] == 4:
            why = 'hang'
        elif again['rc'] == 2 and ('fatal error:' in err or 'panic:' in err or 'SIGSEGV' in err) and 'suriya-go' in err:
            why = 'crash: ' + re.search(r'(fatal error|panic|SIG\w+)[^\n]*', err).group(0)
        else:
            raise Broken('the recorder ended with %s:\n%s' % (again['rc'], err[-2000:]))
        try:
            op = json.loads(again['doing'])
        except ValueError:
            op = {'ev': 'unknown', 'text': again['doing']}
        line = dict(op)
        line.update(panic=why, r={})
        return line, err[-4000:]

    # -- validation --------------------------------------------------------
    def shards(self, segments, n=WORKERS, weight=len):
        """Segments (self-contained lists of operations) spread over n shards."""
        out = [[0, []] for _ in range(min(n, len(segments)) or 1)]
        for s in sorted(segments, key=weight, reverse=True):
            b = min(out, key=lambda x: x[0])
            b[0] += weight(s)
            b[1].append(s)
        return [[op for s in b[1] for op in s] for b in out]

    def validate(self, trace, module='SuriyaTrace', consts='CONSTANT Active = {"%s"}\n', heap='2500m'):
        cfg = 'SPECIFICATION TraceSpec\n' + (consts % self.prop if '%' in consts else consts) + \
              'POSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
        rc, o, gen, dist = self.tlc(module, cfg, env={'TRACE': trace, 'WORLD': self.world()}, heap=heap)
        m = re.search(r'REJECTED (\d+)', o)
        with self.lock:
            self.states += dist
            self.transitions += max(gen - 1, 0)
        if rc == 0 and not m:
            return None
        if m:
            return int(m.group(1)), o
        # an evaluation error: the value returned is of a shape the specification
        # cannot even compare.  The line is the one after the last state.
        m = re.search(r'^/?\\?\s*l = (\d+)', '\n'.join(o.splitlines()[::-1]), re.M)
        ls = re.findall(r'\bl = (\d+)', o)
        if 'Error' in o and ls and 'evaluat' in o:
            return int(ls[-1]), o
        raise Broken('TLC failed on a trace:\n' + o[-3000:])

    def replayfile(self, data):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        body = json.dumps(data, indent=1)
        p = os.path.join(d, '%s-%s.json' % (self.prop, hashlib.sha256(body.encode()).hexdigest()[:10]))
        open(p, 'w').write(body)
        return p

    def check(self, segments, bin='full', cwd=None, confirm=True, n=WORKERS):
        """Record the segments and validate the traces."""
        sh = self.shards(segments, n)
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            futs = [ex.submit(self.shard, ops, bin, cwd, confirm) for ops in sh]
            errs = []
            for f in futs:
                try:
                    f.result()
                except (Violation, Broken) as e:
                    errs.append(e)
        for e in errs:
            if isinstance(e, Violation):
                raise e
        for e in errs:
            raise e

    def shard(self, ops, bin, cwd, confirm):
        rec = self.record(ops, bin, cwd)
        if rec['rc'] != 0:
            line, err = self.crashed(ops, bin, cwd, rec)
            raise Violation(line['panic'], self.replayfile(
                {'property': self.prop, 'what': line['panic'], 'line': line, 'stderr': err, 'ops': tail(ops, line)}))
        bad = self.validate(rec['trace'])
        lines = open(rec['trace']).read().splitlines()
        if not lines:
            raise Broken('an empty trace')
        with self.lock:
            self.traces += 1
            self.events += len(lines)
            if len(self.samples) < 4:
                self.samples.append(short(lines[len(lines) // 2]))
        if bad is None:
            shutil.rmtree(rec['dir'], ignore_errors=True)
            return
        at, out = bad
        line = json.loads(lines[at - 1]) if at <= len(lines) else {}
        if confirm:
            # Again, to tell a result that always comes out from one that comes
            # out sometimes.  What was recorded did come out of the code, so
            # either is a violation; but the judgement itself must be stable.
            for _ in range(3):
                again = self.record(ops, bin, cwd)
                if again['rc'] != 0 or self.validate(again['trace']) is not None:
                    break
            else:
                if self.validate(rec['trace']) is None:
                    raise Broken('line %d was rejected once and accepted when read again: %s' % (at, short(lines[at - 1])))
                self.notes['not_every_time'] = True
        prefix = [json.loads(x) for x in lines[max(0, at - 4):at - 1]]
        raise Violation('line %d is not what the specification allows: %s' % (at, short(lines[at - 1])),
                        self.replayfile({'property': self.prop, 'rejected_line': line, 'lines_before': prefix,
                                         'ops': context(ops, lines, at), 'bin': bin}))

    # -- evidence ----------------------------------------------------------
    def evidence(self, level, assumptions, violations=0, extra=None):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['(none)'],
               'recorded_calls_validated': self.events, 'models': self.models}
        cov.update(self.notes)
        cov.update(extra or {})
        json.dump({'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
                   'seed': self.seed, 'level': level,
                   'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - self.t0, 2),
                   'violations': violations}, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)


_goroot = []


def goroot():
    if not _goroot:
        try:
            _goroot.append(subprocess.run(['go', 'env', 'GOROOT'], capture_output=True, text=True, timeout=60).stdout.strip())
        except Exception:
            _goroot.append('/usr/local/go')
    return _goroot[0]


def short(s, n=600):
    return s if len(s) <= n else s[:n] + '...'


def tail(ops, line):
    """The state-setting operations and the last one."""
    return [o for o in ops if o.get('ev') == 'config'][-1:] + [{k: v for k, v in line.items() if k not in ('panic', 'r')}]


def context(ops, lines, at):
    """The operations needed to see the rejected line again."""
    out, need = [], []
    # lines and operations correspond one to one, except for concurrent ones
    if any(o.get('ev') == 'par' for o in ops):
        return ops
    upto = ops[:at]
    starts = {'next': 'chain', 'add': 'newday', 'set': 'newday'}
    ev = upto[-1]['ev']
    i = at - 1
    if ev in starts:
        while i > 0 and upto[i]['ev'] != starts[ev]:
            i -= 1
    elif ev == 'year' and i > 0 and upto[i - 1]['ev'] == 'year':
        i -= 1
    cfg = [o for o in upto[:i] if o['ev'] == 'config'][-1:]
    return cfg + upto[i:]


def read_world():
    """The data files of the repository, as facts for the specification."""
    astro, files = {}, {}
    d = os.path.join(REPO, 'data', 'astro')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.json'):
            continue
        b = open(os.path.join(d, f), 'rb').read()
        h = hashlib.sha256(b).hexdigest()[:24]
        files['/data/astro/' + f] = {'sha': h, 'size': len(b), 'base': f, 'lsha': h, 'lsize': len(b)}
        m = re.match(r'astro-(-?\d+)\.json$', f)
        if not m:
            continue
        L = []
        j = json.loads(b)
        if j.get('success') and not (j.get('error') or {}).get('code'):
            for r in j.get('response') or []:
                t = datetime.datetime.fromisoformat(r['dateTimeISO']).astimezone(datetime.timezone.utc)
                L.append([t.year, t.month, t.day, t.hour * 3600 + t.minute * 60 + t.second, t.microsecond * 1000, 0, r['code']])
        astro[m.group(1)] = L
    return {'astro': astro, 'files': files, 'gaps': known_gaps()}


def known_gaps():
    """The days whose phase is known to be missing from the data."""
    return [[int(x) for x in m.groups()] for m in
            re.finditer(r'^KNOWN-FINDING: property=C26 .*?(\d{4})-(\d\d)-(\d\d)', open(os.path.join(VERIF, 'known_findings.txt')).read(), re.M)]
