"""Facts of the syntax tree of a translation unit (tool/vtast.cpp)."""
import json
import os
import vt


def ensure():
    return vt.ensure_tool('vtast', [os.path.join(LIB, 'libclang-cpp.so.18.1')])


LIB = '/usr/lib/llvm-18/lib'


def run(src, flags=(), roots=None):
    """src: file below VERIF or absolute; roots: directories whose declarations are reported"""
    r = vt.REPO
    roots = roots or [r + '/src', r + '/libhifir']
    p = src if os.path.isabs(src) else os.path.join(vt.VERIF, src)
    rd = vt.sh([vt.CLANG, '-print-resource-dir']).stdout.strip()
    c = vt.sh([ensure(), ','.join(roots), p, '--', '-std=c++11', '-ferror-limit=0', '-I' + r + '/src', '-I' + r + '/libhifir/include', '-I' + r + '/libhifir/src',
               '-resource-dir', rd] + list(flags))
    try:
        d = json.loads(c.stdout)
    except ValueError:
        raise vt.ToolError('syntax tree of %s: %s' % (src, c.stderr[-600:]))
    return d


def rel(loc):
    return os.path.relpath(loc, vt.REPO) if loc.startswith(vt.REPO) else loc
