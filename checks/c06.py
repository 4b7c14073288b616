"""C06: -i replaces a file atomically or leaves it alone, also under faults."""
import os, sys, re, resource, signal, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, gen
import build as B

c = vlib.Check('C06', 'exploration',
               'knfmt -i over generated files in scenarios (modes, owners, umask, several files, directories, styles, sizes) where every system '
               'call from the open of the first file on is made to fail (5 errors) or to be the crash point (SIGKILL), file size limits cut '
               'writes, and reads/writes are short; monitored: content, mode and owner of the target, directory listing, bystanders and exit '
               'status; non-trivial: distinct (scenario, system call, fault) whose fault was delivered or crash point reached',
               ['faults are injected at system call boundaries by strace; loss of power (unsynced data) is not modelled, knfmt does not fsync',
                'symbolic links are not covered'])
EXE = c.build('plain')
SHORT = B.build_shim(os.path.join(vlib.VERIF, 'shims', 'shortio.c'), 'shortio')
ERRS = ['EIO', 'ENOSPC', 'EINTR', 'EACCES', 'ENOMEM']
BAD = b'int f(void)\n{\n\tif (a) {\n\t\tx = ;\n'


def special():
    """Whether this sandbox lets a file of someone else have special mode bits."""
    d = vlib.fresh_dir()
    try:
        vlib.write(d + '/x', b'')
        os.chown(d + '/x', 1234, 4321)
        os.chmod(d + '/x', 0o7755)
        return os.stat(d + '/x').st_mode & 0o7777 == 0o7755
    except OSError:
        return False
    finally:
        vlib.rmtree(d)


MASK = 0o7777 if special() else 0o777


class Scn:
    """A directory with targets and bystanders, and the command line."""

    def __init__(self, i):
        r = vlib.rng('C06', i)
        self.i = i
        self.flags = ['-i'] + (['-s'] if r.random() < .4 else [])
        self.umask = r.choice([0o022, 0o077, 0])
        self.style = work.style(r, .4)
        self.files = {}      # name -> (content, mode, uid, gid)
        n = r.choice([1, 1, 1, 2, 3])
        self.args = []
        for k in range(n):
            name = r.choice(['', 'sub/', './']) + r.choice(['a', 'x.y', 'long_name_here', 'b c']) + '%d' % k + r.choice(['.c', '.h', ''])
            kind = r.choice(['plain', 'plain', 'plain', 'bad', 'big']) if n > 1 else r.choice(['plain', 'plain', 'big'])
            if kind == 'bad':
                src = BAD
            else:
                src = work.program(r, size=20 if kind == 'plain' else 60)[0]
                if kind == 'big':
                    src = src * (1 + r.choice([9000, 40000, 140000]) // (len(src) + 1))
            own = r.choice([(0, 0), (0, 0), (1234, 0), (0, 4321), (1234, 4321)])
            self.files[os.path.normpath(name)] = (src, r.choice([0o644, 0o600, 0o755, 0o444, 0o664, 0o640, 0o666, 0o2755, 0o4755, 0o1644, 0o6750]) & MASK) + own
            self.args.append(name)
        self.by = {'by.c': b'int  y ;\n', '.a0.c.AAAAAAAA': b'keep me\n', 'sub/z.h': b'int  z ;\n', 'a0.c.orig': b'keep\n'}
        self.expect = {}     # name -> new content, None if rejected
        self.same = set()

    def setup(self):
        d = vlib.fresh_dir()
        os.mkdir(d + '/sub')
        for n, (src, mode, u, g) in self.files.items():
            vlib.write(d + '/' + n, src)
            os.chown(d + '/' + n, u, g)
            os.chmod(d + '/' + n, mode)
        for n, v in self.by.items():
            if n not in self.files:
                vlib.write(d + '/' + n, v)
        if self.style:
            vlib.write(d + '/.clang-format', self.style)
        return d

    def learn(self):
        """What formatting yields, from knfmt writing to standard output."""
        d = self.setup()
        try:
            for n in self.files:
                x = vlib.run([EXE] + self.flags[1:] + [n], cwd=d)
                if x.timeout or x.rc not in (0, 1):
                    return False
                self.expect[n] = x.out if x.rc == 0 else None
                if x.rc == 0 and x.out == self.files[n][0]:
                    self.same.add(n)
        finally:
            vlib.rmtree(d)
        return True


def listing(d):
    out = set()
    for root, dirs, names in os.walk(d):
        for n in names:
            out.add(os.path.relpath(os.path.join(root, n), d))
    return out


def judge(s, d, before, rc, killed, fault, ino):
    """Returns a list of what is wrong."""
    bad = []
    allnew = True
    for n, (src, mode, u, g) in s.files.items():
        p = d + '/' + n
        try:
            st = os.lstat(p)
            now = vlib.read(p)
        except OSError as e:
            bad.append('%s is gone: %s' % (n, e))
            continue
        new = s.expect[n]
        if now == src and (new is None or new == src):
            state = 'final'
            if st.st_ino != ino[n]:
                bad.append('%s was replaced although its content does not change' % n)
        elif now == src:
            state = 'old'
            allnew = False
        elif now == new:
            state = 'new'
        else:
            bad.append('%s is neither the old nor the complete new content (%d bytes, old %d, new %s)' %
                       (n, len(now), len(src), new is not None and len(new)))
            continue
        if (st.st_mode & 0o7777, st.st_uid, st.st_gid) != (mode, u, g):
            bad.append('%s (%s content): mode/owner %o %d:%d, was %o %d:%d' %
                       (n, state, st.st_mode & 0o7777, st.st_uid, st.st_gid, mode, u, g))
    for n, v in s.by.items():
        if n not in s.files and (not os.path.exists(d + '/' + n) or vlib.read(d + '/' + n) != v):
            bad.append('bystander %s was touched' % n)
    if not killed:
        if rc not in (0, 1):
            # running out of memory may end the process, not the file
            if 'ENOMEM' not in fault:
                bad.append('exit status %s' % rc)
        if rc == 0 and not allnew:
            bad.append('exit 0 although a file was not replaced')
        if rc == 0 and any(v is None for v in s.expect.values()):
            bad.append('exit 0 although a file was rejected')
        left = listing(d) - before
        if left and not fault.startswith('unlink') and rc in (0, 1):
            bad.append('left over: %s' % sorted(left))
    return bad


def execute(s, cmd, fault, killed, env=None, fsize=None):
    d = s.setup()
    try:
        before = listing(d)
        ino = {n: os.lstat(d + '/' + n).st_ino for n in s.files}
        e = dict(vlib.BASE_ENV)
        e.update(env or {})

        def pre():
            os.umask(s.umask)
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=120, preexec_fn=pre)
        except subprocess.TimeoutExpired:
            return None
        dead = p.returncode in (-9, 137)
        bad = judge(s, d, before, p.returncode, killed and dead, fault, ino)
        if not killed and p.stdout:
            bad.append('wrote to standard output in place')
        hit = b'INJECTED' in vlib.read(d + '/../log%d' % os.getpid()) if os.path.exists(d + '/../log%d' % os.getpid()) else dead
        return bad, hit or dead
    finally:
        vlib.rmtree(d)


def scenario(i):
    s = Scn(i)
    out = []
    if not s.learn():
        return i, None, None
    tot = sum(len(v[0]) for v in s.files.values())
    log = os.path.join(vlib.scratch(), 'log%d' % os.getpid())
    base = ['strace', '-f', '-qq', '-o', log]
    cmd = [EXE] + s.flags + s.args

    def add(name, fault, killed=False, env=None, fsize=None, strace=True):
        if os.path.exists(log):
            os.unlink(log)
        r = execute(s, (base + ['-e', name] if name else base if strace else []) + cmd, fault, killed, env, fsize)
        out.append((fault, None, False) if r is None else (fault,) + r)
    add(None, 'none', strace=True)
    if not os.path.exists(log):
        return i, s.files, 'notrace'
    # the calls from the first target on
    calls = []
    cnt = {}
    on = False
    first = s.args[0]
    for l in open(log, errors='replace'):
        m = re.match(r'\d+ +(\w+)\(', l)
        if not m:
            continue
        nm = m.group(1)
        cnt[nm] = cnt.get(nm, 0) + 1
        if '"%s"' % first in l and not nm.startswith('exec'):
            on = True
        if on and nm not in ('exit_group', 'umask'):
            calls.append((nm, cnt[nm]))
    r = vlib.rng('C06f', i)
    lim = c.n(130, 500)
    # brk(2) reports failure by the old break, not by an error
    pts = [(nm, k, e) for nm, k in calls for e in ERRS if nm != 'brk'] + [(nm, k, 'KILL') for nm, k in calls]
    # every crash point of the first and last calls, a sample of the others
    if len(pts) > lim:
        io = [p for p in pts if p[0] not in ('read', 'write', 'brk', 'mmap', 'munmap')]
        r.shuffle(io)
        rest = [p for p in pts if p[0] in ('read', 'write', 'brk', 'mmap', 'munmap')]
        r.shuffle(rest)
        pts = io[:lim * 2 // 3] + rest[:lim - min(len(io), lim * 2 // 3)]
    for nm, k, e in pts:
        if e == 'KILL':
            add('inject=%s:signal=SIGKILL:when=%d' % (nm, k), '%s#%d KILL' % (nm, k), killed=True)
        else:
            add('inject=%s:error=%s:when=%d' % (nm, e, k), '%s#%d %s' % (nm, k, e))
    for n in sorted({0, 1, r.randrange(1, 64), r.randrange(1, max(2, tot)), max(0, tot - 1)}):
        add(None, 'fsize %d' % n, fsize=n, strace=False)
    for n in (1, r.randrange(2, 50), 4095):
        if tot / n < 20000:
            add(None, 'short %d' % n, env={'LD_PRELOAD': SHORT, 'SHORTIO': str(n)}, strace=False)
    return i, s.files, out


for i, files, out in c.map(scenario, range(c.n(36, 900)), chunk=1):
    if out is None or out == 'notrace':
        c.inconclusive += 1
        c.stats['scenario skipped'] += 1
        continue
    for fault, bad, hit in out:
        if bad is None:
            c.inconclusive += 1
            continue
        kind = fault.split()[0].split('#')[0]
        live = hit or fault.split()[0] in ('none', 'fsize', 'short')
        c.stats[('fault %s' if live else 'not reached %s') % (kind + (' crash' if fault.endswith('KILL') else ''))] += 1
        c.observe(vlib.digest(i, fault) if live else None, {'scenario': i, 'fault': fault, 'files': sorted(files)})
        if bad:
            c.violation(vlib.digest(i, fault), 'scenario %d, fault %s: %s' % (i, fault, '; '.join(bad)),
                        {os.path.basename(n): v[0] for n, v in files.items()})
c.finish(minimum=300)
