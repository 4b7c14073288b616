"""C19: resources: nothing is written that was not asked for, nothing accumulates."""
import os, sys, glob, hashlib, resource, stat, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, gen, styles
import san_common as S

c = vlib.Check('C19', 'exploration',
               'directories of generated sources (good, malformed, empty, missing, unreadable names) with style files, nested directories and bystanders; '
               'runs to standard output, -d, -s, -D, -ds, standard input and -i over many files; monitored: every file and directory of the tree (inode, mode, '
               'owner, times, content) before and after, temporary files left anywhere, the outcome under a limit of 16 open files compared with no limit, '
               'and the peak memory for 20 and for 220 repetitions of the same files; non-trivial: distinct (tree, arguments)',
               ['memory may grow by 768 KB at most between 20 and 220 repetitions', 'files are below 40 KB each'])
EXE = c.build('plain')


def snap(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(root, n)
            st = os.lstat(p)
            h = ''
            if stat.S_ISREG(st.st_mode):
                h = hashlib.sha256(open(p, 'rb').read()).hexdigest()
            out[os.path.relpath(p, d)] = (st.st_ino, st.st_mode, st.st_uid, st.st_gid, st.st_nlink, st.st_mtime_ns, h)
    st = os.lstat(d)
    out['.'] = (st.st_ino, st.st_mode, st.st_uid, st.st_gid, st.st_nlink, st.st_mtime_ns, '')
    return out


def temps():
    return set(glob.glob('/tmp/libks.*')) | set(glob.glob('/tmp/.*.c.*'))


BEFORE = temps()


def tree(r, d):
    files = []
    os.makedirs(d + '/sub/deep')
    os.makedirs(d + '/.git')
    for k in range(r.choice([1, 2, 4, 8])):
        n = r.choice(['', 'sub/', 'sub/deep/']) + 'f%d.%s' % (k, r.choice('ch'))
        t = r.random()
        if t < .55:
            data = work.program(r)[0]
        elif t < .7:
            data = S.source(r)[1][:20000]
        elif t < .8:
            data = b''
        elif t < .9:
            data = b'int main(void) { return 0;\n'
        else:
            data = b'int x;\n'
        vlib.write(d + '/' + n, data)
        os.chmod(d + '/' + n, r.choice([0o644, 0o600, 0o444, 0o755]))
        files.append(n)
    vlib.write(d + '/bystander.txt', 'int  x ;\n')
    vlib.write(d + '/f0.c.orig', 'int  x ;\n')
    os.symlink('bystander.txt', d + '/link')
    if r.random() < .5:
        sty = styles.style(r, based=False)[1]
        vlib.write(d + '/.clang-format', sty)
    if r.random() < .15:
        files.append('missing.c')
    if r.random() < .05:
        files.append('sub')
    return files


def diff_of(r, d, files):
    out = ''
    for f in files:
        if not os.path.isfile(d + '/' + f):
            continue
        n = len(open(d + '/' + f, 'rb').read().split(b'\n')) - 1
        if n < 1:
            continue
        a = r.randrange(1, n + 1)
        ls = open(d + '/' + f, 'rb').read().decode('latin-1').split('\n')
        b = min(n, a + r.randrange(0, 6))
        out += '--- a/%s\n+++ b/%s\n@@ -%d,0 +%d,%d @@\n' % (f, f, a, a, b - a + 1) + ''.join('+%s\n' % l for l in ls[a - 1:b])
    return out.encode('latin-1')


def limits(n):
    def f():
        if n:
            resource.setrlimit(resource.RLIMIT_NOFILE, (n, n))
    return f


def spawn(cmd, inp, d, nofile=0, timeout=60):
    """(status, output, diagnostics, peak KB)"""
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(nofile), env=vlib.BASE_ENV)
    try:
        o, e = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    return p.returncode, o, e


def side_effects(i):
    r = vlib.rng('C19', 'tree', i)
    d = vlib.fresh_dir()
    try:
        files = tree(r, d)
        mode = r.choice([[], ['-d'], ['-s'], ['-ds'], ['-D'], ['-Dd'], ['-di'], ['-'], ['-i'], ['-is'], ['-Di']])
        inp = b''
        args = list(files)
        if mode == ['-']:
            mode, args = [], []
            inp = vlib.read(d + '/' + files[0]) if os.path.isfile(d + '/' + files[0]) else b''
        elif 'D' in ''.join(mode):
            inp, args = diff_of(r, d, files), []
        many = args * r.choice([1, 1, 30 // max(1, len(args)) + 1]) if 'i' not in ''.join(mode) else args
        a = snap(d)
        x = spawn([EXE] + mode + many, inp, d)
        b = snap(d)
        bad = []
        inplace = 'i' in ''.join(mode) and 'd' not in ''.join(mode)
        if x is None:
            return None
        for p in sorted(set(a) | set(b)):
            if a.get(p) == b.get(p):
                continue
            if p not in b:
                bad.append('%s disappeared' % p)
            elif p not in a:
                bad.append('%s was created' % p)
            elif not inplace:
                bad.append('%s was touched: %s became %s' % (p, a[p], b[p]))
            elif p in files and stat.S_ISREG(a[p][1]):
                if a[p][1:4] != b[p][1:4] or a[p][-1] == b[p][-1]:
                    bad.append('%s: %s became %s' % (p, a[p], b[p]))
            elif not stat.S_ISDIR(a[p][1]) or a[p][:5] != b[p][:5]:
                bad.append('%s was touched: %s became %s' % (p, a[p], b[p]))
            elif not any(os.path.dirname(f) == ('' if p == '.' else p) and a.get(f) != b.get(f) for f in files):
                bad.append('directory %s was touched' % p)
        if not inplace:
            y = spawn([EXE] + mode + many, inp, d, nofile=16)
            if y is None:
                return None
            if y != x:
                bad.append('with 16 open files at most: exit %s instead of %s, %r' % (y[0], x[0], y[2][:200]))
        else:
            # Again, now under the limit: formatted files stay, whatever is left is done.
            y = spawn([EXE] + mode + many * 8, inp, d, nofile=16)
            if y is None:
                return None
            if b'open files' in y[2]:
                bad.append('open files accumulate: %r' % y[2][:200])
        return 'tree %s' % ' '.join(mode or ['plain']), ' '.join(mode + many[:8]), bad, {f: vlib.read(d + '/' + f) for f in files if os.path.isfile(d + '/' + f)}, vlib.digest(str(sorted((p, v[-1]) for p, v in a.items())), str(mode), inp)
    finally:
        os.system('chmod -R u+w %s' % d)
        vlib.rmtree(d)


MEASURE = r'''
import resource, subprocess, sys
subprocess.run(sys.argv[1:], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=200)
print(resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss)
'''


def memory(i):
    r = vlib.rng('C19', 'mem', i)
    d = vlib.fresh_dir()
    try:
        files = tree(r, d)
        files = [f for f in files if os.path.isfile(d + '/' + f)][:4]
        mode = r.choice([[], [], ['-s'], ['-d'], ['-i']])
        rss = []
        for n in (20, 220):
            p = subprocess.run([sys.executable, '-c', MEASURE, EXE] + mode + files * (n // len(files)), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vlib.BASE_ENV)
            try:
                rss.append(int(p.stdout))
            except ValueError:
                return None
        bad = []
        if rss[1] > rss[0] + 768:
            bad.append('peak memory of %d KB for 20 files and of %d KB for 220 of them' % tuple(rss))
        return 'memory %s' % ' '.join(mode or ['plain']), ' '.join(mode + files), bad, {f: vlib.read(d + '/' + f) for f in files}, vlib.digest(str(files), str(i), str(mode))
    finally:
        os.system('chmod -R u+w %s' % d)
        vlib.rmtree(d)


def one(job):
    return (memory if job[0] else side_effects)(job[1])


jobs = [(0, i) for i in range(c.n(8000, 120000))] + [(1, i) for i in range(c.n(160, 3000))]
jobs = jobs[::-1]
for res in c.map(one, jobs, as_limit=None, chunk=8):
    if res is None:
        c.inconclusive += 1
        continue
    kind, args, bad, files, key = res
    c.stats[kind] += 1
    c.observe(key, {'kind': kind, 'args': args})
    if bad:
        c.violation(key, '%s (%s)' % (bad[0], kind), dict({f.replace('/', '_'): v for f, v in files.items()}, what='knfmt %s\n%s\n' % (args, '\n'.join(bad))))
left = temps() - BEFORE
c.stats['temporary files left'] = len(left)
if left:
    c.violation('temps', 'temporary files left behind: %s' % sorted(left)[:3], {'list': '\n'.join(sorted(left)) + '\n'})
c.finish(minimum=2000)
