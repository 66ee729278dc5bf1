#!/usr/bin/env python3
"""Apply one-line edits to a scratch copy of the sources and list which of them a check reports (development aid).
usage: mutate.py PROP FILE...   spec file: blocks  '@ path[:line]' / '- old' / '+ new'   (old occurs once, or on/after the line)"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VT_REPO', '/repo')


def parse(p):
    out, cur = [], None
    for l in open(p):
        l = l.rstrip('\n')
        if l.startswith('@ '):
            m = re.match(r'@ (\S+?)(?::(\d+))?$', l)
            cur = [m.group(1), int(m.group(2) or 0), [], []]
            out.append(cur)
        elif l.startswith('- '):
            cur[2].append(l[2:])
        elif l.startswith('+'):
            cur[3].append(l[2:])
    return out


def run(prop, k, mu):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        for x in ('src', 'libhifir', 'examples'):
            if os.path.isdir(os.path.join(SRC, x)):
                shutil.copytree(os.path.join(SRC, x), d + '/' + x, ignore=shutil.ignore_patterns('*.o', '*.so', '*.a'))
        path, line, old, new = mu
        p = os.path.join(d, path)
        s = open(p).read()
        o, n = '\n'.join(old), '\n'.join(new)
        start = 0
        if line:
            start = sum(len(x) + 1 for x in s.split('\n')[:line - 1])
        i = s.find(o, start)
        if i < 0 or (not line and s.count(o) > 1):
            return k, 'SPEC', 'old text found %d times: %s' % (s.count(o), o)
        open(p, 'w').write(s[:i] + n + s[i + len(o):])
        r = subprocess.run([sys.executable, os.path.join(V, 'checks', prop.lower() + '.py')], env=dict(os.environ, VT_REPO=d, VT_EVID=d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        w = [l for l in r.stdout.splitlines() if l.startswith('  ') and 'undecided:' not in l or 'NO ANSWER' in l or 'Error' in l]
        return k, {0: 'MISSED', 1: 'caught', 2: 'NOANS'}.get(r.returncode, 'CRASH'), (w[0].strip() if w else '')[:230]
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    prop = sys.argv[1]
    mus = [m for p in sys.argv[2:] for m in parse(p)]
    with ThreadPoolExecutor(6) as ex:
        for k, st, w in ex.map(lambda t: run(prop, t[0], t[1]), enumerate(mus)):
            print('%-7s %s:%s  %s' % (st, mus[k][0].split('/')[-1], (mus[k][3] or [''])[0].strip()[:70], w))
