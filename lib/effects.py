"""Exception effects: which exception types can leave a function, computed over the call graph of the lowered sources.

The lattice element of a function is the set of typeinfo symbols it can throw; call sites contribute the effect of
their callee, invokes only what no clause of their landing pad catches, rethrows what the pads of the function caught.
'?' stands for an unknown type (indirect calls that cannot be resolved).
"""
import re, subprocess
import vt

STD = 'std'     # some type derived from std::exception
ANY = '?'
TERM = 'std::terminate'     # the process ends: nothing catches it
CALL = re.compile(r'\b(call|invoke)\b[^@%]*?(?:@("[^"]+"|[\w.$]+)|%[\w.]+)\(')
SYM = r'(?:"[^"]+"|[\w.$]+)'
THROWN = {'bad_alloc': 'St9bad_alloc'}


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, universal_newlines=True)
    return dict(zip(names, r.stdout.split('\n')))


class Effects:
    def __init__(self, w, src, flags=()):
        out = w.dir + '/fx.ll'
        r = vt.sh([vt.CLANG, '-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-w', '-S', '-emit-llvm', '-I', vt.REPO + '/src'] + list(flags) + [src, '-o', out])
        if r.returncode:
            raise vt.ToolError('the sources do not compile for analysis:\n' + r.stderr[-3000:])
        self.bases = {}         # typeinfo -> base typeinfos
        self.sites = {}         # function -> [(callee or None, clauses or None, throw type, nounwind)]
        self.nounw = set()
        self.attr = {}
        self.terms = {}         # function -> landing pads that end the process
        self.taken = set()
        self.parse(out)
        self.solve()

    def parse(self, path):
        fn, pend, blk, pads, sites = None, None, None, None, None
        attrs = {}
        decl = {}
        for l in open(path):
            if l[0] == 'd' and (l.startswith('define') or l.startswith('declare')):
                m = re.search(r'@(%s)\(' % SYM, l)
                n = m.group(1).strip('"')
                a = re.findall(r'#(\d+)', l[m.end():])
                decl[n] = a[-1] if a else None
                if l.startswith('define'):
                    fn, sites, pads, blk = n, [], {}, None
                    terms = self.terms.setdefault(n, set())
                    pc = None
                continue
            if fn is None:
                if l[0] == '@':
                    m = re.match(r'@(_ZTI\w+) = .*constant', l)
                    if m:
                        self.bases[m.group(1)] = [x for x in re.findall(r'@(_ZTI\w+)', l[m.end():])]
                    elif not l.startswith('@llvm.'):
                        self.taken |= set(x.strip('"') for x in re.findall(r'ptr @(%s)' % SYM, l.split(' = ', 1)[1]))
                elif l.startswith('attributes #'):
                    m = re.match(r'attributes #(\d+) = \{(.*)\}', l)
                    attrs[m.group(1)] = m.group(2)
                continue
            if l[0] == '}':
                self.sites[fn] = (sites, pads)
                fn = None
                continue
            m = re.match(r'([\w.]+|"[^"]+"):', l)
            if m:
                blk = m.group(1)
                pc = None
                continue
            if pc is not None:
                t = l.strip()
                if t.startswith('catch ptr'):
                    x = t.split()[2]
                    pc.append(None if x == 'null' else x.lstrip('@'))
                    continue
                if t.startswith('filter'):
                    pc.append(None)
                    continue
                if t == 'cleanup':
                    continue
                pc = None
            if 'landingpad' in l:
                pc = pads.setdefault(blk, [])
                continue
            if pend is not None:
                m = re.search(r'unwind label %(\S+)', l)
                if m:
                    pend[1] = m.group(1)
                    pend = None
                    continue
            m = CALL.search(l)
            if m and not re.match(r'\s*(%%%s = )?(load|store|getelementptr|phi|select)' % SYM, l):
                callee = m.group(2).strip('"') if m.group(2) else None
                if callee and callee.startswith('llvm.'):
                    continue
                if callee in ('__clang_call_terminate', '_ZSt9terminatev'):
                    if not re.match(r'_ZN?K?St', fn):       # the standard library is trusted on its own noexcept
                        terms.add(blk)
                    continue
                a = re.findall(r'\) #(\d+)', l)
                th = None
                if callee == '__cxa_throw':
                    th = re.search(r'ptr @(_ZTI\w+)', l)
                    th = th.group(1) if th else ANY
                s = [callee, None, th, a[-1] if a else None]
                sites.append(s)
                if m.group(1) == 'invoke':
                    pend = s
                    x = re.search(r'unwind label %(\S+)', l)
                    if x:
                        s[1] = x.group(1)
                        pend = None
                for x in re.findall(r'ptr[^,()]*@(%s)' % SYM, l[m.end():]):
                    self.taken.add(x.strip('"'))
            elif 'ptr @' in l:
                self.taken |= set(x.strip('"') for x in re.findall(r'ptr @(%s)' % SYM, l))
        self.nounw = {n for n, a in decl.items() if a and 'nounwind' in attrs.get(a, '')}
        self.nuattr = {a for a, t in attrs.items() if 'nounwind' in t}

    # ---- types
    def derives(self, t, b):
        if t == b:
            return True
        if t == STD or re.match(r'_ZTIN?St.*(error|exception|bad_\w+|out_of_range|invalid_argument|failure)', t) and not self.bases.get(t):
            if b == '_ZTISt9exception':
                return True
        return any(self.derives(x, b) for x in self.bases.get(t, []) if x != t)

    def caught(self, t, clauses):
        return any(c is None or t != ANY and self.derives(t, c) for c in clauses)

    def external(self, n):
        if n in ('abort', 'exit', '_exit', 'quick_exit', '__assert_fail'):
            return frozenset([TERM])
        if n in self.nounw:
            return frozenset()
        m = re.match(r'_ZSt\d+__throw_(\w+?)(v|PKcz?)(z)?$', n)
        if m:
            return frozenset([STD])
        if n in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'):
            return frozenset(['_ZTISt9bad_alloc'])
        if n.startswith('_Z'):
            return frozenset([STD])
        return frozenset()

    def site(self, s, eff, ind):
        callee, pad, th, a = s
        if callee is None:
            return ind if a not in self.nuattr else frozenset()
        if callee == '__cxa_throw':
            return frozenset([th])
        if callee == '__cxa_rethrow':
            return None
        if callee in self.sites and callee in self.nounw:
            return eff[callee]
        if a in self.nuattr:
            return self.external(callee) & {TERM} if callee not in self.sites else frozenset()
        if callee in self.sites:
            return eff[callee]
        return self.external(callee)

    def solve(self):
        eff = {f: frozenset() for f in self.sites}
        callers = {}
        for f, (ss, _) in self.sites.items():
            for s in ss:
                callers.setdefault(s[0], set()).add(f)
        self.why = {}
        ind = frozenset()
        takenf = [f for f in self.sites if f in self.taken]
        while True:
            work = list(self.sites)
            inq = set(work)
            while work:
                f = work.pop()
                inq.discard(f)
                ss, pads = self.sites[f]
                out, re_ = set(), set()
                rethrow = False
                for s in ss:
                    e = self.site(s, eff, ind)
                    if e is None:
                        rethrow = s
                        continue
                    cl = pads.get(s[1], []) if s[1] else []
                    for t in e:
                        if t == TERM:
                            out.add(t)
                            self.why.setdefault((f, t), s[0])
                        elif s[1] in self.terms.get(f, ()):
                            out.add(TERM)
                            self.why.setdefault((f, TERM), s[0])
                        elif self.caught(t, cl):
                            re_.add(t)
                        else:
                            out.add(t)
                            self.why.setdefault((f, t), s[0])
                if rethrow:
                    for t in re_:
                        if not self.caught(t, pads.get(rethrow[1], [])):
                            out.add(t)
                            self.why.setdefault((f, t), '__cxa_rethrow')
                if re.match(r'_ZN?K?St', f) and f in self.nounw:
                    out = set()
                if f in self.nounw:
                    out &= {TERM}
                if frozenset(out) != eff[f]:
                    eff[f] = frozenset(out) | eff[f]
                    for c in callers.get(f, ()):
                        if c not in inq:
                            inq.add(c)
                            work.append(c)
            n = ind.union(*[eff[f] for f in takenf]) if takenf else ind
            if n == ind:
                break
            ind = n
        self.eff, self.ind = eff, ind

    def of(self, n):
        if n in self.sites:
            return self.eff[n]
        return self.external(n)

    def chain(self, f, t):
        r, seen = [f], {f}
        while (f, t) in self.why:
            f = self.why[f, t]
            r.append(f or 'an indirect call')
            if f is None or f in seen:
                break
            seen.add(f)
        d = demangle(r)
        return ' > '.join(re.sub(r'<.*>|\(.*', '', d[x]) for x in r[:8])
