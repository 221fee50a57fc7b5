"""Runs the extractor on /repo's current tree (on every check run)."""
import os
import re
import subprocess
import hashlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(V, '.build'))


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'printemps'))):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode())
            h.update(open(p, 'rb').read())
    for f in ('extractor/vx.cpp', 'extractor/tu.cpp'):
        h.update(open(os.path.join(V, f), 'rb').read())
    return h.hexdigest()[:20]


def extract():
    """returns (path of ir, notes)."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'ir-%s.jsonl' % tree_hash())
    notes = []
    if os.path.exists(out) and os.path.exists(out + '.notes'):
        return out, open(out + '.notes').read().split('\n')
    vx = subprocess.run(['bash', os.path.join(V, 'engine', 'extract.sh')], capture_output=True, text=True)
    if vx.returncode != 0:
        return None, ['extractor build failed: ' + vx.stderr[-300:]]
    vx = vx.stdout.strip()
    res = subprocess.run(['clang-18', '-print-resource-dir'], capture_output=True, text=True).stdout.strip()
    src = open(os.path.join(V, 'extractor', 'tu.cpp')).read().split('\n')
    tu = os.path.join(BUILD, 'tu-%d.cpp' % os.getpid())
    for attempt in range(6):
        open(tu, 'w').write('\n'.join(src))
        tmp = out + '.%d' % os.getpid()
        with open(tmp, 'w') as fo:
            p = subprocess.run([vx, tu, '--', '-std=c++17', '-I%s/printemps' % REPO, '-resource-dir', res], stdout=fo, stderr=subprocess.PIPE, text=True)
        bad = sorted({int(m.group(1)) for m in re.finditer(re.escape(tu) + r':(\d+):\d+: (?:error|note: in instantiation)', p.stderr)})
        if p.returncode == 0 and 'error:' not in p.stderr:
            os.rename(tmp, out)
            break
        if not bad:
            notes.append('extraction failed: ' + p.stderr[:300])
            os.unlink(tmp)
            os.unlink(tu)
            return None, notes
        for b in bad:
            notes.append('driver line dropped: ' + src[b - 1])
            src[b - 1] = '//'
    else:
        os.unlink(tu)
        return None, notes
    os.unlink(tu)
    open(out + '.notes', 'w').write('\n'.join(notes))
    # keep the cache small
    olds = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD) if f.startswith('ir-') and f.endswith('.jsonl'))
    for _, f in olds[:-3]:
        for g in (f, f + '.notes'):
            try:
                os.unlink(os.path.join(BUILD, g))
            except OSError:
                pass
    return out, notes
