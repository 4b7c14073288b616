"""Unified diffs of marked lines."""

HEAD = [b'', b'', b' int main(void)', b' static void foo(int a, char *b)', b' x +3', b' struct s {']


def mkdiff(r, files):
    """files: (path, lines, marks, eofnl) -> diff text"""
    out = []
    ctx = r.choice([0, 1, 3, 3])
    pre = r.random() < .7 or any(f[0].startswith('b/') for f in files)
    for path, lines, marks, eofnl in files:
        path = path.encode()
        if r.random() < .4:
            out.append(b'diff --git a/%s b/%s\nindex 4f2a..99aa 100644\n' % (path, path))
        date = r.choice([b'', b'', b'\t2020-01-01 10:00:00.000000000 +0000'])
        out += [b'--- ' + (b'a/' if pre else b'') + path + date + b'\n', b'+++ ' + (b'b/' if pre else b'') + path + date + b'\n']
        hunks = []
        for m in sorted(marks):
            lo, hi = max(1, m - ctx), min(len(lines), m + ctx)
            if hunks and lo <= hunks[-1][1] + 1:
                hunks[-1][1] = hi
            else:
                hunks.append([lo, hi])
        gap = [k for k in range(1, len(lines) + 1) if not any(lo <= k <= hi for lo, hi in hunks)]
        if gap and r.random() < .2 and ctx == 0:
            k = r.choice(gap)
            hunks = sorted(hunks + [[k, k, 'del']])
        tail = len(lines)
        while tail in marks:
            tail -= 1
        # The old file ended without a new line.
        bare = tail + 1 if tail < len(lines) and r.random() < .4 else None
        off = 0
        for h in hunks:
            lo, hi = h[:2]
            if len(h) == 3:
                out.append(b'@@ -%d,2 +%d,0 @@\n-deleted ;\n-  lines;\n' % (lo + off, lo))
                off += 2
                continue
            body, old, new = [], 0, 0
            for k in range(lo, hi + 1):
                last = k == len(lines) and not eofnl
                if k in marks:
                    if k == bare:
                        body.append(b'-old end\n\\ No newline at end of file\n')
                        old += 1
                    for _ in range(0 if bare and k >= bare else r.choice([0, 0, 1, 2])):
                        body.append(b'-old %d line\n' % r.randrange(9))
                        old += 1
                    body.append(b'+' + lines[k - 1] + b'\n')
                else:
                    body.append(b' ' + lines[k - 1] + b'\n')
                    old += 1
                new += 1
                if last:
                    body.append(b'\\ No newline at end of file\n')
            if k in marks and r.random() < .2 and not last and not bare:
                body.append(b'-removed after\n')
                old += 1
            cnt = b'+%d' % lo if new == 1 and r.random() < .5 else b'+%d,%d' % (lo, new)
            out.append(b'@@ -%d,%d %s @@%s\n' % (max(lo + off - (old == 0), 0), old, cnt, r.choice(HEAD)))
            out += body
            off += old - new
    return b''.join(out)
