"""C18: the containers and helpers everything is built on behave as their models."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, build

c = vlib.Check('C18', 'exploration',
               'random operation sequences on vector, map (string and integer keys), buffer (heap and arena), list, arena with nested scopes, file reading, '
               'string matching (at every alignment, text ending at an unmapped page), splitting and overflow-checked arithmetic, in a sanitized and an '
               'optimised build; monitored: every result against a plain reference model in the harness, the sanitizers, guard pages; non-trivial: '
               'distinct operation sequence run to its end',
               ['text matched contains no NUL byte', 'scopes are entered and left in stack order, allocations come from the innermost one'])
H = os.path.join(vlib.VERIF, 'harness', 'libks_model.c')
EXE = {v: build.build(v, main=[H], name='libks_model', extra_cflags=('-D_GNU_SOURCE',)) for v in ('plain', 'asan')}
# Sequences per process.
PER = {'arithmetic': 400, 'match': 400, 'split': 400, 'vector': 200, 'map-str': 60, 'map-int': 60, 'buffer': 150, 'read': 150, 'arena': 20, 'list': 150}
SEED = int(os.environ.get('VERIF_SEED', '1'))


def one(job):
    k, v, t = job
    return job, vlib.run([EXE[v], str(SEED * 1000003 + k), str(PER[t]), t], b'', timeout=120)


jobs = [(k, v, t) for k in range(c.n(60, 2000)) for v in EXE for t in PER]
for (k, v, t), x in c.map(one, jobs, as_limit=None, chunk=4):
    if x.timeout:
        c.inconclusive += 1
        continue
    m = re.search(rb'OK (\S+) (\d+) (\d+)', x.out)
    if x.rc == 0 and m:
        for s in range(int(m.group(2))):
            c.observe('%s-%s-%d-%d' % (t, v, k, s), {'component': t, 'build': v, 'seed': k})
        c.stats['operations judged on ' + t] += int(m.group(3))
        continue
    f = re.search(rb'FAIL (.*)', x.out)
    what = f.group(1).decode('latin-1') if f else 'exit %s %s' % (x.rc, x.err[-300:].decode('latin-1'))
    c.violation('%s-%s' % (t, k), '%s (%s build): %s' % (t, v, what),
                {'command': '%s %d %d %s\n' % (os.path.basename(EXE[v]), SEED * 1000003 + k, PER[t], t), 'output': x.out + x.err})
c.finish(minimum=20000)
