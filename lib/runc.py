"""Compile and run generated programs."""
import vlib, exgen

PRE = exgen.PRELUDE + exgen.MACROS


def execute(src, main, d, name):
    """Trace of the program, None if it does not compile, 'timeout' if it hangs."""
    f = d + '/' + name
    vlib.write(f + '.c', PRE.encode() + src + b'\n' + main.encode())
    p = vlib.run(['gcc', '-std=gnu99', '-O0', '-w', '-fwrapv', '-o', f, f + '.c'], b'', cwd=d)
    if p.timeout:
        return 'timeout', b''
    if p.rc != 0:
        return None, p.err
    q = vlib.run([f], b'', cwd=d)
    if q.timeout:
        return 'timeout', b''
    return (q.rc, q.out), b''
