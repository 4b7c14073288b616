"""Shared harness of the checks: running knfmt, collecting verdicts, evidence.

A check is a script that builds what it needs from /repo, runs a list of cases
in a pool of workers, hands every observation to an oracle and calls finish().
Exit 0: held on everything observed.  Exit 1: at least one violation that the
known-findings file does not list.  Anything else is an error of the check.
"""
import atexit, collections, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

VERIF = B.VERIF
REPO = B.REPO
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
FINDINGS = os.path.join(VERIF, 'known-findings.txt')

ASAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3000:'
                    'allocator_may_return_null=0:detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=190',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98:halt_on_error=1',
    'LSAN_OPTIONS': 'exitcode=97',
}
BASE_ENV = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TMPDIR': '/tmp', 'HOME': '/nonexistent'}


class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout')

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, input=b'', cwd=None, env=None, timeout=40, retry=True):
    """Runs cmd.  A timeout is retried once with a longer one."""
    e = dict(BASE_ENV)
    e.update(ASAN_ENV)
    if env:
        e.update(env)
    for t in ((timeout, timeout * 3) if retry else (timeout,)):
        try:
            r = subprocess.run(cmd, input=input, cwd=cwd, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=t)
            return Result(r.returncode, r.stdout, r.stderr)
        except subprocess.TimeoutExpired as x:
            last = Result(None, x.stdout or b'', x.stderr or b'', True)
    return last


_SAN = re.compile(rb'(ERROR: (?:AddressSanitizer|LeakSanitizer|MemorySanitizer)[^\n]*|runtime error:[^\n]*|'
                  rb'Assertion [^\n]*failed[^\n]*)')


def crash_kind(r):
    """None if the process ended in an orderly way (exit 0 or 1), otherwise a
    short description of what a sanitizer or the kernel reported."""
    if r.timeout:
        return None
    if r.rc in (0, 1):
        if r.rc == 1:
            m = _SAN.search(r.err)
            if m and b'Sanitizer' in r.err:
                return m.group(1).decode(errors='replace')[:300]
        return None
    m = _SAN.search(r.err)
    return 'exit %s: %s' % (r.rc, m.group(1).decode(errors='replace')[:300] if m else
                            r.err[-200:].decode(errors='replace'))


def frame_of(err):
    """First frame in knfmt's own code, for the report only."""
    for m in re.finditer(rb'#\d+ 0x[0-9a-f]+ in (\S+) ([^\s:]+):(\d+)', err):
        if m.group(2).startswith(REPO.encode()):
            return '%s %s:%s' % tuple(x.decode(errors='replace') for x in m.groups())
    return ''


_scratch = None


def scratch():
    """Per process scratch directory, removed at exit."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = os.environ.get('VERIF_SCRATCH') or '/tmp'
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix='vk-', dir=base))
    return _scratch[1]


def fresh_dir():
    return tempfile.mkdtemp(dir=scratch())


def rmtree(d):
    shutil.rmtree(d, ignore_errors=True)


def write(path, data):
    if isinstance(data, str):
        data = data.encode('latin-1')
    with open(path, 'wb') as f:
        f.write(data)


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def _init(base, as_limit):
    os.environ['VERIF_SCRATCH'] = base
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if as_limit:
        resource.setrlimit(resource.RLIMIT_AS, (as_limit, as_limit))


def rng(*key):
    """Deterministic generator for a case: depends on VERIF_SEED and the key."""
    h = hashlib.sha256(repr((SEED,) + key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def corpus(prefixes=('valid', 'simple', 'style', 'diff-simple', 'bug', 'error'), ext=('.c', '.h')):
    """Test sources of the repository, as workload seeds only."""
    d = os.path.join(REPO, 'tests')
    out = []
    for root, _, names in os.walk(d):
        for n in sorted(names):
            if n.endswith(tuple(ext)) and n.startswith(tuple(prefixes)):
                p = os.path.join(root, n)
                out.append((os.path.relpath(p, d), read(p)))
    out.sort()
    return out


class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.stats = collections.Counter()
        self.extra = {}
        self.viol = []
        self.inconclusive = 0
        self.base = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir='/tmp')
        os.environ['VERIF_SCRATCH'] = self.base
        atexit.register(rmtree, self.base)
        self.replays = os.path.join(VERIF, 'replays', pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.known = self._known()

    def _known(self):
        out = {}
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3).strip()
        return out

    def n(self, quick, thorough):
        k = float(os.environ.get('VERIF_SCALE', '1'))
        return max(1, int((quick if TIER == 'quick' else thorough) * k))

    def build(self, *a, **k):
        try:
            return B.build(*a, **k)
        except B.BuildError as e:
            print('build of the tree failed: %s' % e, file=sys.stderr)
            sys.exit(2)

    def map(self, fn, items, as_limit=0, chunk=8, jobs=None):
        """Yields fn(item) over a worker pool."""
        items = list(items)
        with mp.Pool(jobs or JOBS, initializer=_init, initargs=(self.base, as_limit)) as p:
            for r in p.imap_unordered(fn, items, chunksize=chunk):
                yield r

    def observe(self, key=None, sample=None, n=1):
        """Counts an execution; key not None: a non-trivial one."""
        self.evals += n
        if key is not None:
            self.distinct.add(key)
            if sample is not None and len(self.samples) < 4:
                self.samples.append(sample)

    def violation(self, key, what, files=None):
        """key identifies the failing input (stable across runs)."""
        self.viol.append((key, what, files or {}))

    def finish(self, minimum=1, inconclusive_max=0.02):
        known, new = [], []
        seen = set()
        for v in self.viol:
            if v[0] in seen:
                continue
            seen.add(v[0])
            (known if v[0] in self.known else new).append(v)
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
               'samples': self.samples[:4], 'observed': dict(sorted(self.stats.items())),
               'inconclusive': self.inconclusive}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        # stable order: smallest witness first
        new.sort(key=lambda v: (sum(len(x) for x in v[2].values()), v[0]))
        for k, w, _ in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]))
        for i, (k, w, files) in enumerate(new[:3]):
            p = os.path.join(self.replays, '%02d' % i)
            os.makedirs(p, exist_ok=True)
            for name, data in files.items():
                write(os.path.join(p, name), data)
            write(os.path.join(p, 'WHAT'), ('key=%s\nseed=%d\n%s\n' % (k, SEED, w)).encode('utf-8', 'replace'))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            print('  %s' % w[:600].replace('\n', '\n  '))
        if len(new) > 3:
            print('  ... and %d more' % (len(new) - 3))
        print('%s: %d executions, %d distinct non-trivial, %d inconclusive, %d violations, %.1f s' %
              (self.pid, self.evals, len(self.distinct), self.inconclusive, len(new), time.time() - self.t0))
        sys.stdout.flush()
        if new:
            sys.exit(1)
        if len(self.distinct) < minimum:
            print('error: observed too little (%d < %d)' % (len(self.distinct), minimum), file=sys.stderr)
            sys.exit(2)
        sys.exit(0)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode('latin-1', 'replace')
        elif not isinstance(p, bytes):
            p = repr(p).encode()
        h.update(p + b'\0')
    return h.hexdigest()[:16]
