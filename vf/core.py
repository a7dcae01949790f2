"""Shared machinery of the checks: builds of the compiler, process running,
verdicts, known findings and evidence.

Every check is a function check(ck) taking a Check object.  It rebuilds what it
needs from the working tree of /repo (VF_REPO overrides it, for development)
in a private scratch directory, and never writes in /repo.
"""
import atexit, concurrent.futures, hashlib, json, os, random, re, shutil, signal
import subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
JOBS = int(os.environ.get('VF_JOBS', '8'))
SHELLS = ['dash', 'bash', 'ksh', 'mksh', 'yash', 'zsh']

SAN = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
       '-fno-sanitize=shift,signed-integer-overflow', '-fno-sanitize-recover=all']
SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0',
           'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99', 'MSAN_OPTIONS': 'exitcode=99'}
SAN_RE = re.compile(rb'AddressSanitizer|runtime error:|UndefinedBehaviorSanitizer|MemorySanitizer')


# inherited by every process started here, without the cost of a preexec_fn
import resource
resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class HarnessError(Exception):
    pass


class Res:
    __slots__ = ('rc', 'out', 'err', 'timeout')

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return 'rc=%s%s out=%r err=%r' % (self.rc, ' TIMEOUT' if self.timeout else '', self.out[-300:], self.err[-300:])

    def san(self):
        """True if a sanitizer reported something in this run"""
        return self.rc == 99 or bool(SAN_RE.search(self.err))


def base_env(extra=None):
    env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': '/nonexistent',
           'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8'}
    env.update(SAN_ENV)
    if extra:
        env.update(extra)
    return env


def run(cmd, timeout=20, stdin=b'', cwd=None, env=None, extra_env=None, maxout=8 << 20, retry=True, preexec=None, busy=0):
    """Run a command in its own session.  A run that times out is run once more
    with four times the limit before it is reported as a timeout."""
    if env is None:
        env = base_env(extra_env)
    tout = tempfile.TemporaryFile(); terr = tempfile.TemporaryFile()

    try:
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None and not hasattr(stdin, 'fileno') else stdin,
                                 stdout=tout, stderr=terr, cwd=cwd, env=env, start_new_session=True, preexec_fn=preexec)
        except OSError as e:
            if e.errno == 8:  # ENOEXEC: not an executable
                return Res(126, b'', b'exec format error', False)
            if e.errno == 26 and busy < 200:  # ETXTBSY: another thread forked while the file was written
                time.sleep(0.05)
                return run(cmd, timeout, stdin, cwd, env, None, maxout, retry, preexec, busy + 1)
            raise
        to = False
        try:
            p.communicate(stdin if isinstance(stdin, bytes) else None, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        if to and retry:
            return run(cmd, timeout * 4, stdin, cwd, env, None, maxout, False, preexec)
        tout.seek(0); terr.seek(0)
        return Res(p.returncode, tout.read(maxout), terr.read(maxout), to)
    finally:
        tout.close(); terr.close()


class Scratch:
    """Private scratch directory, removed at exit"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vf-', dir='/tmp')
        self.n = 0
        self.lock = threading.Lock()
        self.pid = os.getpid()
        atexit.register(self.clean)

    def clean(self):
        if os.getpid() == self.pid and not os.environ.get('VF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, suffix=''):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, 'f%d%s' % (self.n, suffix))

    def write(self, data, suffix=''):
        p = self.path(suffix)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('latin-1'))
        return p

    def mkdir(self):
        p = self.path('.d')
        os.mkdir(p)
        return p


class Check:
    def __init__(self, pid, level='exploration'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.s = Scratch()
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.evaluations = 0
        self.nontrivial = set()
        self.inconclusive = 0
        self.inconclusive_notes = []
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.extra = {}
        self.rule = ''
        self.assumptions = []
        self.builds = {}
        self.build_locks = {}
        self.src_copy = None
        self.known = load_known(pid)
        rep = os.path.join(VERIF, 'evidence', 'replays')
        if os.path.isdir(rep):
            for f in os.listdir(rep):
                if f.startswith(pid + '-'):
                    shutil.rmtree(os.path.join(rep, f), ignore_errors=True)
        self.maxviol = 25

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- builds ------------------------------------------------------------
    def src(self):
        """A private copy of the sources, so that the check never races with edits and never writes in /repo"""
        with self.lock:
            if self.src_copy is None:
                d = os.path.join(self.s.dir, 'src')
                os.mkdir(d)
                for f in os.listdir(REPO):
                    if f.endswith('.c') or f.endswith('.h'):
                        shutil.copy(os.path.join(REPO, f), d)
                for sub in ('portable_libc', 'include'):
                    if os.path.isdir(os.path.join(REPO, sub)):
                        shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub))
                self.src_copy = d
        return self.src_copy

    def build(self, *flags, san=False, cc='gcc', opt=None):
        """Build a variant of the compiler, e.g. build('-Dsh')"""
        key = (flags, san, cc, opt)
        d = self.src()
        with self.lock:
            lk = self.build_locks.setdefault(key, threading.Lock())
        with lk:
            if key in self.builds:
                return self.builds[key]
            exe = self.s.path('-pnut')
            cmd = [cc, '-w'] + (SAN if san else ['-O1' if opt is None else opt]) + list(flags) + ['pnut.c', '-o', exe]
            r = run(cmd, timeout=300, cwd=d)
            if r.rc != 0:
                raise HarnessError('build failed: %s\n%s' % (' '.join(cmd), r.err.decode('latin-1')[-2000:]))
            self.builds[key] = exe
            return exe

    def build_all(self, specs):
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda s: self.build(*s[0], **s[1]), specs))

    # -- bookkeeping -------------------------------------------------------
    def count(self, n=1):
        with self.lock:
            self.evaluations += n

    def seen(self, *key):
        with self.lock:
            self.nontrivial.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def bump(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 5:
                self.samples.append(s if len(s) < 3000 else s[:3000] + '...')

    def unsure(self, note):
        with self.lock:
            self.inconclusive += 1
            if len(self.inconclusive_notes) < 10:
                self.inconclusive_notes.append(note[:300])

    def violation(self, what, files=None, key=None):
        """Record a violation.  files: {name: bytes} saved for the replay.
        key: identifies the failing input, for known findings."""
        with self.lock:
            if key is not None and key in self.known:
                self.known_hit[key] = what
                return
            if len(self.violations) >= self.maxviol:
                return
            d = os.path.join(VERIF, 'evidence', 'replays', '%s-%s' % (
                self.pid, hashlib.sha1((what + repr(sorted((files or {}).items()))).encode('latin-1', 'replace')).hexdigest()[:12]))
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'README'), 'w') as f:
                f.write('property %s, seed %d, tier %s\n%s\nreproduce: cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s\n' % (
                    self.pid, self.seed, self.tier, what, VERIF, self.seed, self.tier, self.pid))
            for n, b in (files or {}).items():
                with open(os.path.join(d, n), 'wb') as f:
                    f.write(b if isinstance(b, bytes) else b.encode('latin-1', 'replace'))
            self.violations.append((what, d))

    def probe(self, key, failing, what):
        """A probe of a known finding: the failing input is fixed and identified by key."""
        if failing:
            self.violation(what, {'input': what}, key=key)

    def pmap(self, fn, items):
        """Run fn over items in parallel.  Harness exceptions are errors of the check."""
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(fn, items))

    # -- end ---------------------------------------------------------------
    def finish(self):
        for key in self.known:
            if key in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[key]))
        for what, d in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, d))
            print('  ' + what.replace('\n', '\n  ')[:1500])
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.nontrivial), 'rule': self.rule,
               'samples': self.samples or ['(none)'], 'inconclusive': self.inconclusive}
        if self.inconclusive_notes:
            cov['inconclusive_notes'] = self.inconclusive_notes
        cov.update(self.extra)
        if self.known:
            cov['known_findings_observed'] = sorted(self.known_hit)
        ev = {'property': self.pid, 'tier': 'thorough' if self.thorough else 'quick', 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % self.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % self.pid))
        print('%s: %d evaluations, %d distinct, %d inconclusive, %d violations, %.1fs' % (
            self.pid, self.evaluations, len(self.nontrivial), self.inconclusive, len(self.violations), time.time() - self.t0))
        if self.violations:
            return 1
        if self.evaluations == 0 or not self.nontrivial:
            print('ERROR: nothing was observed')
            return 2
        if self.inconclusive * 4 > self.evaluations:
            print('ERROR: too many inconclusive cases: %r' % self.inconclusive_notes[:3])
            return 2
        return 0


def load_known(pid):
    """known_findings.txt: lines 'finding: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'"""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res


def main(argv):
    import importlib
    sys.path.insert(0, VERIF)
    pid = argv[1]
    try:
        mod = importlib.import_module('vf.checks.' + pid.lower())
        ck = Check(pid, getattr(mod, 'LEVEL', 'exploration'))
        mod.check(ck)
        return ck.finish()
    except Exception:
        traceback.print_exc()
        print('ERROR: the harness of %s failed' % pid)
        return 2
