#!/usr/bin/env python3
"""Creates and confirms planted bugs.  seed.py new ID PROP FILE <<spec | seed.py run ID...   (never used by a check)

new: reads from stdin sections separated by lines '=== old', '=== new' (repeatable pairs, '=== file PATH' switches file),
'=== needs', '=== breaks', '=== demo' (C++ body).
run: applies patch in /repo, builds+tests, runs demo and the property's check both ways, undoes it."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def new(ident, prop, text):
    secs, cur = [], None
    for line in text.splitlines():
        m = re.match(r'=== (\w+) ?(.*)$', line)
        if m:
            cur = [m.group(1), m.group(2), []]
            secs.append(cur)
        elif cur:
            cur[2].append(line)
    d = os.path.join(S, ident)
    os.makedirs(d, exist_ok=True)
    f, old, meta, demo, flags = None, None, {}, None, ''
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    try:
        for k, arg, lines in secs:
            t = '\n'.join(lines)
            if k == 'file':
                f = os.path.join(R, arg)
            elif k == 'old':
                old = t
            elif k == 'new':
                src = open(f).read()
                assert src.count(old) == 1, (f, src.count(old), old)
                open(f, 'w').write(src.replace(old, t))
            elif k in ('needs', 'breaks'):
                meta[k] = ' '.join(t.split())
            elif k == 'demo':
                demo, flags = t, arg
        diff = sh('git -C /repo diff').stdout
    finally:
        sh('git -C /repo checkout -- .')
    assert diff.strip()
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': prop, 'needs': meta['needs'], 'what_it_breaks': meta['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ext = 'c' if 'LANG=c' in flags else 'cpp'
    flags = flags.replace('LANG=c', '')
    open(os.path.join(d, 'demo.' + ext), 'w').write(demo + '\n')
    if 'demo.hpp' in demo:
        shutil.copy(os.path.join(V, 'tool', 'demo', 'demo.hpp'), d)
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0 when the property holds on this input
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 %s -I"$PWD/src" -I"$here" -x c++ "$here/demo.%s" -o "$tmp/demo" %s -llapack -lblas > "$tmp/log" 2>&1 || { cat "$tmp/log"; exit 8; }
cd "$tmp" && ./demo
''' % (flags, ext, '-Wl,-rpath,"$PWD/libhifir/lib" -L"$PWD/libhifir/lib"' if 'libhifir' in flags else ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)


def run(ident, tests=True):
    d = os.path.join(S, ident)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode:
        print(ident, 'PATCH FAILS', a.stdout)
        return
    try:
        t = 'skipped'
        if tests:
            sh('bash /opt/vp/test.sh /tmp/seed-out.json')
            res = json.load(open('/tmp/seed-out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            names = base.get('stable_pass') or base.get('passed') or base
            t = 'fail %d pass %d' % (len(res['failed']), len(res['passed']))
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        c = sh('python3 checks/%s.py' % prop.lower(), cwd=V) if os.path.exists(os.path.join(V, 'checks', prop.lower() + '.py')) else None
    finally:
        sh('git -C /repo checkout -- .')
    print('%s %s: demo clean=%d patched=%d | tests %s | check rc=%s %s' % (
        ident, prop, r0.returncode, r1.returncode, t, c and c.returncode,
        'CAUGHT' if c and c.returncode == 1 and 'VIOLATION property=%s' % prop in c.stdout else 'MISSED'))
    if r0.returncode or not r1.returncode:
        print(r0.stdout[-1500:], '\n----\n', r1.stdout[-1500:])
    if c and c.returncode != 1:
        print(c.stdout[-600:])
    else:
        print('   ', '\n    '.join(x for x in (c.stdout.splitlines() if c else []) if x.startswith('  ') and 'undecided' not in x)[:600])


if sys.argv[1] == 'new':
    new(sys.argv[2], sys.argv[3], sys.stdin.read())
    run(sys.argv[2])
else:
    fast = '-f' in sys.argv
    for i in [x for x in sys.argv[2:] if x != '-f'] or sorted(os.listdir(S)):
        run(i, not fast)
