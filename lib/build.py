"""Builds knfmt variants from /repo's current working tree into /verif/build.

Every build is keyed by the hash of all sources, so a changed tree is always
rebuilt and an unchanged one is reused.  Nothing is written in /repo.
"""
import glob, hashlib, os, re, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')

CONFIG_H = """#ifndef CONFIG_H
#define CONFIG_H
int pledge(const char *, const char *);
#endif
"""

# The sanitizer builds keep asserts; unsigned wrap-around is defined behaviour
# in C and used on purpose in places, so it is not among the monitors.
VARIANTS = {
    'plain': dict(cc='gcc', cflags=['-O2', '-g']),
    'asan': dict(cc='clang', cflags=['-O1', '-g', '-fno-omit-frame-pointer',
                 '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                 '-fno-sanitize=function']),
    'msan': dict(cc='clang', cflags=['-O1', '-g', '-fno-omit-frame-pointer',
                 '-fsanitize=memory', '-fno-sanitize-recover=all']),
    # second compiler and optimisation level: outcome must not depend on it
    'alt': dict(cc='clang', cflags=['-O0', '-g', '-ftrivial-auto-var-init=pattern']),
}


class BuildError(Exception):
    pass


def sources():
    """Source list of the knfmt program, from the project's own Makefile."""
    text = open(os.path.join(REPO, 'Makefile')).read()
    names = re.findall(r'^SRCS\s*\+=\s*(\S+)', text, re.M)
    names += [n for n in re.findall(r'^SRCS_knfmt\s*\+=\s*(\S+)', text, re.M)
              if not n.startswith('$')]
    out = []
    for n in names:
        for d in (REPO, os.path.join(REPO, 'libks')):
            p = os.path.join(d, n)
            if os.path.exists(p):
                out.append(p)
                break
        else:
            raise BuildError('source not found: ' + n)
    return out


def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    files = sorted(glob.glob(REPO + '/*.[chS]') + glob.glob(REPO + '/*.cpp') +
                   glob.glob(REPO + '/libks/*.[chS]') + [REPO + '/Makefile'])
    for f in files:
        if os.path.basename(f) == 'config.h':
            continue
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))


def build(variant, main=None, name='knfmt', extra_cflags=(), extra_ldflags=()):
    """Returns the path of the built program.

    main: optional list of harness sources that replace knfmt.c."""
    v = VARIANTS[variant]
    key = repr((variant, v, main and [open(m, 'rb').read() for m in main],
                extra_cflags, extra_ldflags, CONFIG_H))
    d = os.path.join(BUILD, '%s-%s-%s' % (name, variant, tree_hash(key)))
    exe = os.path.join(d, name)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock-%s-%s' % (name, variant)), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        # drop older builds of the same variant
        for old in glob.glob(os.path.join(BUILD, '%s-%s-*' % (name, variant))):
            shutil.rmtree(old, ignore_errors=True)
        tmp = d + '.tmp%d' % os.getpid()
        os.makedirs(tmp)
        with open(os.path.join(tmp, 'config.h'), 'w') as f:
            f.write(CONFIG_H)
        srcs = sources()
        if main:
            srcs = [s for s in srcs if os.path.basename(s) != 'knfmt.c'] + list(main)
        objs = []
        cmds = []
        for i, s in enumerate(srcs):
            o = os.path.join(tmp, '%03d-%s.o' % (i, os.path.basename(s)))
            objs.append(o)
            cmds.append([v['cc'], *v['cflags'], *extra_cflags, '-I' + tmp, '-I' + REPO,
                         '-c', s, '-o', o])
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(lambda c: _run(c, tmp), cmds))
        _run([v['cc'], *v['cflags'], '-o', os.path.join(tmp, name), *objs, *extra_ldflags], tmp)
        for o in objs:
            os.unlink(o)
        os.rename(tmp, d)
    return exe


def build_shim(src, name):
    key = open(src, 'rb').read()
    d = os.path.join(BUILD, 'shim')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, '%s-%s.so' % (name, hashlib.sha256(key).hexdigest()[:12]))
    if not os.path.exists(so):
        tmp = so + '.tmp%d' % os.getpid()
        _run(['gcc', '-O1', '-g', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], d)
        os.rename(tmp, so)
    return so


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain', 'asan']:
        print(build(v))
