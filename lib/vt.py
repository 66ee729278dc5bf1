"""Shared driver: builds the analyser, lowers /repo's current sources, collects obligations, reports."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++-18'


class ToolError(Exception):
    """the check could not reach an answer (vanished anchor, broken tool, sources that do not compile)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)


def ensure_tool(name='vtdump', libs=()):
    src = os.path.join(VERIF, 'tool', name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, name + '-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cxx = [x for x in sh(['llvm-config-18', '--cxxflags']).stdout.split()
               if not x.startswith('-std=') and x != '-fno-exceptions']
        ld = sh(['llvm-config-18', '--ldflags']).stdout.split()
        tmp = exe + '.tmp%d' % os.getpid()
        r = sh([CLANG, '-O1', '-std=c++17', '-fno-rtti'] + cxx + [src, '-o', tmp] + list(libs) + ld + ['-lLLVM-18'])
        if r.returncode:
            raise ToolError('cannot build ' + name + ':\n' + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe


BASE = ['-std=c++11', '-O1', '-g', '-fstandalone-debug', '-Xclang', '-disable-llvm-passes', '-fno-honor-nans',
        '-fno-math-errno', '-ffp-contract=off', '-Wno-everything']


class Work:
    """scratch directory of one check run"""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='run', dir=BUILD)
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def lower(self, src, flags=(), text=None, base=None):
        """clang -> bitcode; src relative to /verif or absolute, or text= C++ source"""
        self.n += 1
        out = os.path.join(self.dir, 'u%d.bc' % self.n)
        if text is not None:
            src = os.path.join(self.dir, 'u%d.cpp' % self.n)
            open(src, 'w').write(text)
        elif not os.path.isabs(src):
            src = os.path.join(VERIF, src)
        r = sh([CLANG] + list(base or BASE) + ['-I', os.path.join(REPO, 'src')] + list(flags) + ['-emit-llvm', '-c', src, '-o', out])
        if r.returncode:
            raise ToolError('the sources do not compile for analysis:\n' + r.stderr[-3000:])
        return out

    def ast(self, src, filt, flags=()):
        """syntax trees of the declarations whose qualified name contains filt"""
        if not os.path.isabs(src):
            src = os.path.join(VERIF, src)
        r = sh([CLANG, '-std=c++11', '-fsyntax-only', '-Wno-everything', '-I', os.path.join(REPO, 'src')] + list(flags)
               + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, src])
        if r.returncode:
            raise ToolError('the sources do not compile for analysis:\n' + r.stderr[-3000:])
        out, dec, k, t = [], json.JSONDecoder(), 0, r.stdout
        while True:
            while k < len(t) and t[k].isspace():
                k += 1
            if k >= len(t):
                return out
            o, k = dec.raw_decode(t, k)
            out.append(o)

    def dump(self, bc, cfg):
        import ir
        exe = ensure_tool()
        self.n += 1
        out = os.path.join(self.dir, 'd%d.json' % self.n)
        c = os.path.join(self.dir, 'd%d.cfg' % self.n)
        open(c, 'w').write(cfg)
        r = sh([exe, bc, out, c])
        if r.returncode:
            raise ToolError('vtdump failed: ' + r.stderr[-2000:])
        return ir.Program(out)


class Report:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.t0 = time.time()
        self.obl = []          # (rule, construct, status, detail)
        self.viol = {}
        self.notes = []
        self.extra = {}
        self.assumptions = []
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, what, detail=''):
        self.obl.append((rule, what, 'holds', detail))

    def und(self, rule, what, why):
        self.obl.append((rule, what, 'undecided', str(why)))

    def bad(self, rule, what, why, loc='?'):
        """rule+what identify the violated construct (no line numbers)"""
        key = '%s|%s' % (rule, what)
        self.obl.append((rule, what, 'violated', '%s [%s]' % (why, loc)))
        self.viol.setdefault(key, (rule, what, why, loc))

    def need(self, rule, n, minimum, what):
        """anchor guard: a rule that stopped finding its instances gives no answer"""
        if n < minimum:
            raise ToolError('rule %s found %d %s, expected at least %d: the anchor has moved' % (rule, n, what, minimum))

    def finish(self):
        known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
        kf = {f['key']: f for f in known if f['property'] == self.prop}
        new = {k: v for k, v in self.viol.items() if k not in kf}
        for k in self.viol:
            if k in kf:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, kf[k]['what']))
        counts = {}
        for r, w, s, d in self.obl:
            counts.setdefault(r, {}).setdefault(s, 0)
            counts[r][s] += 1
        held = sum(1 for o in self.obl if o[2] == 'holds')
        und = [o for o in self.obl if o[2] == 'undecided']
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
            'coverage': dict({
                'explanation': 'Static analysis of the sources in the working tree; each obligation is one (rule, construct) '
                               'pair decided from the lowered program or the syntax tree without running it.',
                'obligations': len(self.obl), 'discharged': held, 'undecided': len(und),
                'violated': len(self.viol), 'per_rule': counts, 'rules': self.rules,
                'undecided_list': [list(o) for o in und[:60]],
                'samples': [list(o) for o in self.obl[:400]],
            }, **self.extra),
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        evid = os.environ.get('VT_EVID') or os.path.join(VERIF, 'evidence')
        os.makedirs(evid, exist_ok=True)
        with open(os.path.join(evid, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for r in sorted(counts):
            print('%s %s: %s' % (self.prop, r, ', '.join('%d %s' % (n, s) for s, n in sorted(counts[r].items()))))
        for o in und[:20]:
            print('  undecided: %s %s: %s' % (o[0], o[1], o[3][:200]))
        if not self.obl:
            raise ToolError('no obligation was generated')
        if new:
            path = os.path.join(evid, self.prop + '.violations.txt')
            with open(path, 'w') as f:
                for k, (r, w, why, loc) in sorted(new.items()):
                    f.write('rule: %s\n  %s\nconstruct: %s\nat: %s\nreason: %s\n\n' % (r, self.rules.get(r, ''), w, loc, why))
            for k, (r, w, why, loc) in sorted(new.items()):
                print('  %s: %s at %s: %s' % (r, w, loc, why))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('%s: held on %d of %d obligations (%d undecided)' % (self.prop, held, len(self.obl), len(und)))
        return 0


def main(prop, body):
    rep = Report(prop)
    w = Work()
    try:
        body(rep, w)
        rc = rep.finish()
    except ToolError as e:
        print('%s: NO ANSWER: %s' % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        w.close()
    sys.stdout.flush()
    sys.exit(rc)
