"""Asynchronous operations of the library: where they are started, what their completions capture, and what they do."""
import os, re
from .common import *
ASIO = ('boost::asio::', 'boost::beast::')
CH = 'dots::io::Channel'; LI = 'dots::io::Listener'
POST = ('post', 'dispatch', 'defer')
def is_async(e):
    if e.k not in ('call', 'pure') or not e.q.startswith(ASIO): return False
    n = e.q.rsplit('::', 1)[-1]
    return n.startswith('async_') or n in POST
def lib_io():
    out = []
    for d, _, fs in os.walk(os.path.join(program.REPO, 'lib/src/io')):
        out += [os.path.relpath(os.path.join(d, f), program.REPO) for f in fs if f.endswith('.cpp') and '/auth' not in d]
    return sorted(out)

def node_key(lam, st=None, depth=0):
    node = Engine.lams[lam.a[0]][0]
    k = (id(node),)
    if st is not None and depth < 4:
        for c in node.get('caps', []):
            v = st.env.get(c.get('d'))
            if v is not None and v.op == 'lam': k += (c['n'], node_key(v, st, depth + 1))
    return k

class Comp:
    """a completion handler: the lambda, the state it was created in, and the operation it was given to"""
    __slots__ = ('lam', 'st', 'ev', 'cls', 'node', 'fn', 'base', 'start', 'paths', 'via', 'tr')

class Async:
    def __init__(self, ctx, units=None, classes=None):
        self.ctx = ctx
        self.P = P = load(ctx, units or (lib_io() + ['lib/src/Timer.cpp', 'lib/src/Application.cpp']))
        inlib = lambda f: '/lib/src/' in f.file or '/lib/include/dots/' in f.file and '/testing/' not in f.file
        self.inlib = inlib
        conc = []
        for base in (CH, LI):
            for r in P.derived(base):
                if '/testing/' in r['file'] or '/lib/' not in r['file']: continue
                if any(r['t'] in x['bases'] for x in P.records.values()): continue
                conc.append(r['t'])
        self.channels = [t for t in conc if CH in P.bases_q(t)]; self.listeners = [t for t in conc if LI in P.bases_q(t)]
        if len(self.channels) < 4 or len(self.listeners) < 4: raise AnalysisBroken('channel and listener classes not found: %s' % conc)
        # other classes that start asynchronous operations
        oth = set()
        for f in P.fns.values():
            if f.b is None or not inlib(f): continue
            if f.cls and (f.cls in conc or any(f.cls == b for t in conc for b in self.chain(t))): continue
            for n in nodes(f.b):
                q = str(n.get('q') or '')
                if n['k'] == 'call' and q.startswith(ASIO) and (q.rsplit('::', 1)[-1].startswith('async_') or q.rsplit('::', 1)[-1] in POST): oth.add((f.cls, f.u) if not f.cls else (f.cls, None))
        self.others = oth
        self.comps = {}; self.entries = []
    def chain(self, t):
        yield t
        for b in self.P.records.get(t, {}).get('bases', []): yield from self.chain(b)
    def opaque(self, f):
        if not self.inlib(f): return True
        if f.file.endswith(('AsyncStreamChannel.h', 'Handler.h')): return False
        return not ('/dots/io/' in f.file and '/auth/' not in f.file or '/src/io/' in f.file and '/auth/' not in f.file or f.file.endswith(('Timer.cpp', 'Timer.h', 'Application.cpp', 'Application.h'))) or 'DescriptorConverter' in f.file or f.file.endswith(('Transmission.h', 'Transmission.cpp', 'Endpoint.h', 'Endpoint.cpp'))
    def engine(self, t, **kw):
        kw.setdefault('rec_acc', lambda l: True); kw.setdefault('rec_pure', lambda e: True); kw.setdefault('rec_scope', True)
        kw.setdefault('opaque', self.opaque); kw.setdefault('after', after)
        kw.setdefault('may_throw', lambda e: e.k == 'invoke' or self.fault is not None and self.fault(t, e) and 'std::exception')
        return Engine(self.P, this_cls=t, **kw)
    fault = None
    def run(self):
        """analyses every method of every class that takes part and collects the completions that are reached from them"""
        work = []
        for t in self.channels + self.listeners + sorted({c for c, _ in self.others if c}):
            ch = set(self.chain(t))
            for f in self.P.fns.values():
                if f.is_lambda or f.b is None or not self.inlib(f) or f.cls not in ch: continue
                if f.imp or self.opaque(f): continue
                work.append((t, f))
        for c, u in self.others:
            if c is None and u: work.append((None, self.P.fns[u]))
        for t, f in work:
            E = self.engine(t)
            try: ps = E.run(f)
            except Limit as x: raise AnalysisBroken('too many paths in %s: %s' % (f.q, x))
            self.ctx.fns([f]); self.ctx.engine(E)
            self.entries.append((t, f, ps))
            for p in ps: self.collect(E, t, f, p.tr, p.st)
        return self
    def collect(self, E, t, f, tr, st, via=None):
        for i, e in enumerate(tr):
            if not is_async(e): continue
            for a in e.a:
                if a.op != 'lam': continue
                key = (t, node_key(a, st))
                if key in self.comps: continue
                c = Comp(); c.lam = a; c.ev = e; c.cls = t; c.node, this, c.fn = Engine.lams[a.a[0]]; c.via = via; c.st = st; c.tr = tr
                self.comps[key] = c
                s = st.fork(); s.facts = {}; s.eq = {}
                for l in [l for l in s.heap if l.op == 'fld' and Engine.under(E, l, THIS)]: del s.heap[l]
                c.base = s; c.start = len(s.tr)
                ps = c.node['ps'] if c.node.get('ps') is not None else next((x['ps'] for x in c.node.get('specs', []) if x.get('b') is not None), [])
                try: c.paths = E.run_lambda(a, s.fork(), [T('par', p['n'] or '_%d' % j) for j, p in enumerate(ps)])
                except Limit as x: raise AnalysisBroken('too many paths in a completion of %s: %s' % (f.q, x))
                for q in c.paths: self.collect(E, t, f, q.tr[c.start:], q.st, c)

WEAK = ('expired', 'use_count', 'lock')
def life(t): return t.op in ('pc', 'ret') and str(t.a[0]).rsplit('::', 1)[-1] in WEAK and 'ptr' in str(t.a[0])
def destroyer(e):
    return e.k == 'invoke' or e.k == 'call' and e.q == 'boost::asio::dispatch' and any(a.op == 'lam' for a in e.a)
def fails(tr, j):
    """does the call throw on this path"""
    for e in tr[j + 1:]:
        if e.k == 'drop': continue
        return e.k == 'catch'
    return False
def dest(tr, j): return destroyer(tr[j]) and not fails(tr, j)      # a handler that fails leaves the object alone
def after(E, st, e):
    if not destroyer(e): return
    st.facts = {a: v for a, v in st.facts.items() if not any(life(x) for x in walk(a))}
    st.eq = {a: v for a, v in st.eq.items() if not any(life(x) for x in walk(a))}
    ls = {l: 1 for l in st.heap if l.op == 'fld' and l.a[0] is THIS}
    for a in st.facts:
        for x in walk(a):
            if x.op == 'fld' and x.a[0] is THIS and 'ptr' not in x.a[1]: ls[x] = 1
    for l in ls:
        st.n += 1; E.write(st, l, T('ret', 'changed ' + l.a[1], st.n))
