from .async_ import *
from .connection import Conn
from .common import *
from .host import lam_targets

def lam_caps(a, st, depth=0):
    """captures of a lambda and of the lambdas captured by it: (capture, value)"""
    out = []
    for c in Engine.lams[a.a[0]][0].get('caps', []):
        if c['n'] == 'this': out.append((c, THIS)); continue
        v = st.env.get(c.get('d'))
        if v is not None and v.op == 'refto': v = v.a[0]
        out.append((c, v))
        if depth < 6 and v is not None:
            for x in walk(v):
                if x.op == 'lam': out.extend(lam_caps(x, st, depth + 1))
    return out

class Life:
    """decides whether an object is known to exist at an event"""
    def __init__(self, P): self.P = P; self.tokens = set()
    def source(self, t, tr):
        for e in tr:
            if e.ret is t: return e
    def derived(self, t, R, tr, depth=0):
        """is t a (weak or strong) pointer whose expiry tells that R does not exist any more"""
        if t is None or depth > 8: return False
        if t.op == 'refto': return self.derived(t.a[0], R, tr, depth + 1)
        if t.op == 'fld' and t.a[0] is R: self.tokens.add(t.a[1]); return True
        if t.op in ('ret', 'pc') and isinstance(t.a[0], str):
            n = t.a[0].rsplit('::', 1)[-1]
            if n in ('weak_from_this', 'shared_from_this', 'lock'):
                if t.op == 'pc': return len(t.a) > 1 and isinstance(t.a[1], Term) and (t.a[1] is R or self.derived(t.a[1], R, tr, depth + 1))
                e = self.source(t, tr)
                return e is not None and e.o is not None and (e.o is R or self.derived(e.o, R, tr, depth + 1))
            if n == 'make_shared': return self.heaptok(t, R)
        return False
    heap = {}
    def heaptok(self, t, R):
        for l, v in self.heap.items():
            if v is t and l.op == 'fld' and l.a[0] is R: self.tokens.add(l.a[1]); return True
        return False
    def guard(self, e, R, tr):
        for a, v in e.facts.items():
            for x in ([a] if a.op in ('ret', 'pc') else []):
                n = str(x.a[0]).rsplit('::', 1)[-1]
                if n == 'expired' and v is False or n == 'lock' and v is True or n == 'use_count' and v is True:
                    w = x.a[1] if x.op == 'pc' and len(x.a) > 1 and isinstance(x.a[1], Term) else None
                    if x.op == 'ret':
                        s = self.source(x, tr); w = s.o if s is not None else None
                    if w is not None and (w is R or self.derived(w, R, tr)): return True
            if a.op in ('==', 'peq') and v is False and len(a.a) == 2 and NULL in a.a:
                x = a.a[0] if a.a[1] is NULL else a.a[1]
                if x.op in ('ret', 'pc') and str(x.a[0]).endswith('::lock') and self.derived(x, R, tr): return True
            if a.op == '<' and v and len(a.a) == 2 and a.a[0].op == 'int' and int(a.a[0].a[0]) >= 0 and a.a[1].op in ('ret', 'pc') and str(a.a[1].a[0]).endswith('use_count'): 
                x = a.a[1]; w = x.a[1] if x.op == 'pc' and len(x.a) > 1 and isinstance(x.a[1], Term) else (self.source(x, tr).o if self.source(x, tr) else None)
                if w is not None and self.derived(w, R, tr): return True
        return False
    def scan(self, tr, start, R, alive0):
        """accesses of R at which it is not known to exist"""
        bad = []; last = None; holds = {}; n = 0
        for i, e in enumerate(tr):
            if e.k == 'hold':
                if self.derived(e.a[0], R, tr) and (e.a[0].op != 'fld'): holds[e.o] = e
            elif e.k == 'drop': holds.pop(e.o, None)
            if i < start: continue
            acc = e.k == 'acc' and e.o is not None and e.o.op == 'fld' and e.o.a[0] is R or e.k in ('call', 'pure', 'invoke') and e.o is R
            if e.k == 'pure' and e.name() in ('weak_from_this',) and False: acc = False
            if acc:
                n += 1
                ok = last is None and alive0 or bool(holds) or self.guard(e, R, tr) or last is not None and last.ret is not None and e.facts.get(last.ret) is True
                if not ok: bad.append((e, last))
            if dest(tr, i): last = e      # a handler that fails leaves the object alone
        return bad, n

def member_args(tr, R):
    for e in tr:
        if e.k in ('call', 'ctor', 'pure') and 'make_channel' in e.q.rsplit('::', 1)[-1] or e.k == 'call' and e.name() == 'make_shared_ptr_only':
            for a in e.a:
                for x in walk(a):
                    if x.op == 'addr' and x.a[0].op == 'fld' and x.a[0].a[0] is R: yield e, x.a[0].a[1]

def is_handler_invoke(e): return e.k == 'invoke'

def check(ctx, tier):
    ctx.rule('completion', 'a completion of an asynchronous operation accesses an object it does not own only while that object is known to exist (strong capture, or an expiry check since the last handler that might have destroyed it)')
    ctx.rule('capture', 'a completion captures no local variable by reference')
    ctx.rule('continue', 'a method of a channel or listener does not access the object after calling a handler unless the handler asked to continue or the object is known to exist')
    ctx.rule('orphan', 'a channel that is only kept alive by its own pending write calls no handler of its former owner')
    ctx.rule('token', 'the token that tells whether an object exists is owned by that object alone')
    ctx.rule('borrowed', 'a listener hands no pointer to its own members to the channels it makes')
    ctx.rule('connection', 'a connection does not access itself after calling a handler of its owner unless it keeps itself alive')
    ctx.rule('stop', 'the receive callback of a connection neither asks to continue nor throws after the connection was closed by a handler')
    ctx.rule('owner', 'the receive handler of a transceiver keeps the connection alive while user code runs and does not continue to receive on a closed connection')
    A = Async(ctx).run(); P = A.P
    L = Life(P)
    strongflags = {}
    # --- completions
    cls_strong = {}
    for key, c in A.comps.items():
        caps = lam_caps(c.lam, c.st)
        L.heap = c.st.heap
        roots = []
        for cp, v in caps:
            if cp['n'] == 'this': roots.append((THIS, 'this'))
            elif cp.get('ref') == 1 or cp.get('ref') is True:
                if v is not None and v.op in ('par', 'deref', 'fld', 'this') or (cp.get('t') or '').rstrip().endswith('&'): roots.append((v if v is not None else T('par', cp['n']), cp['n']))
                else: ctx.ob('capture', '%s:%s' % (c.fn.short(), cp['n']), False, c.ev.loc(), 'the completion captures the local variable %s by reference' % cp['n'])
            elif v is not None and (cp.get('t') or '').rstrip().endswith('*') and 'PropertyDescriptor' not in cp['t']: roots.append((T('deref', v), cp['n']))
        if not any(r for r in roots): ctx.ob('capture', c.fn.short(), True, c.ev.loc())
        strong = [v for cp, v in caps if v is not None and (cp.get('t') or '').startswith(('std::shared_ptr', 'const std::shared_ptr'))]
        for R, name in {r: n for r, n in roots}.items():
            st = [v for v in strong if v.op != 'fld' and L.derived(v, R, c.tr)]
            if st and R is THIS: cls_strong.setdefault(c.cls, []).append(c)
            total = 0; bads = []
            for q in c.paths:
                bad, n = L.scan(q.tr, c.start, R, bool(st))
                if st: bad = []
                total += n; bads += bad
            k = '%s:%s' % (c.fn.short(), name)
            ok = not bads
            ctx.ob('completion', k, ok, c.ev.loc(), '' if ok else 'accesses %s of %s at %s, which might have been destroyed %s' % (
                bads[0][0].q, name, bads[0][0].loc(), 'before the completion was called' if bads[0][1] is None else 'by the handler called at %s' % bads[0][1].loc()))
        for q in c.paths:
            for e, m in member_args(q.tr[c.start:], THIS): ctx.ob('borrowed', '%s:%s' % (c.fn.short(), m), False, e.loc(), 'the channel keeps a pointer to %s of the listener, which might be destroyed first' % m)
    ctx.need('completion', 10)
    # --- ordinary methods
    for t, f, ps in A.entries:
        if f.kind == 'dtor' or '::~' in f.q: continue
        bads = []; tot = 0
        for p in ps:
            L.heap = p.st.heap
            if not any(destroyer(e) for e in p.tr): continue
            bad, n = L.scan(p.tr, 0, THIS, True); bads += bad; tot += 1
            for e, m in member_args(p.tr, THIS): ctx.ob('borrowed', '%s:%s' % (f.short(), m), False, e.loc(), 'the channel keeps a pointer to a member')
        if tot:
            ok = not bads
            ctx.ob('continue', '%s<%s>' % (f.short(), str(t).rsplit('::', 1)[-1]), ok, at(f), '' if ok else 'accesses %s at %s after the handler called at %s might have destroyed the object' % (bads[0][0].q, bads[0][0].loc(), bads[0][1].loc()))
    ctx.need('continue', 4)
    # --- orphans
    for t, cs in cls_strong.items():
        # flags that tell that a write is pending: set before the owning completion is started
        flags = None
        for c in cs:
            fl = {e.o.a[1] for e in c.tr if e.k == 'set' and e.o is not None and e.o.op == 'fld' and e.o.a[0] is THIS and e.a and known_true(e.a[0], c.tr[-1].facts)}
            flags = fl if flags is None else flags & fl
        for key, c in A.comps.items():
            if c.cls != t: continue
            for q in c.paths:
                for i, e in enumerate(q.tr):
                    if i < c.start or e.k != 'invoke' or e.o is None or e.o.op not in ('deref', 'some', 'fld', 'at') and not mentions(e.o, lambda x: x.op == 'fld' and x.a[0] is THIS): continue
                    if not mentions(e.o, lambda x: x.op == 'fld' and x.a[0] is THIS): continue
                    ok = False
                    for a, v in e.facts.items():
                        uc = [x for x in walk(a) if x.op in ('ret', 'pc') and str(x.a[0]).endswith('use_count')]
                        if not uc: continue
                        if a.op == '==' and v is False or a.op == '<' and v is True and a.a[0].op == 'int' and int(a.a[0].a[0]) >= 1 or a.op == '<' and v is False and a.a[1].op == 'int' and int(a.a[1].a[0]) >= 2: ok = True
                    ok = ok or any(b.op == 'fld' and b.a[0] is THIS and b.a[1] in (flags or ()) and w is False for b, w in e.facts.items())
                    # after a handler that asked to continue the owner still exists
                    prev = [x for x in q.tr[c.start:i] if x.k == 'invoke']
                    if prev and prev[-1].ret is not None and e.facts.get(prev[-1].ret) is True: ok = True
                    ctx.ob('orphan', '%s:%s' % (c.fn.short(), e.q or 'handler'), ok, e.loc(), '' if ok else 'the handler is called although the owner might have released the channel while its write was pending')
    # --- tokens
    for tok in sorted(L.tokens):
        bad = None
        for f in P.fns.values():
            if f.b is None or not A.inlib(f): continue
            for n in nodes(f.b):
                if n['k'] == 'ctor' and n.get('cp') and str(n.get('t', '')).startswith('std::shared_ptr<') and n['a'] and n['a'][0].get('k') == 'mem' and n['a'][0].get('n') == tok: bad = (f, n)
        ctx.ob('token', tok, bad is None, at(*bad) if bad else '-', '' if bad is None else 'a copy of the token is made in %s line %s, so it does not expire with the object' % (bad[0].q, bad[1].get('l')))
    # --- connection
    M = Conn(ctx)
    kw = dict(rec_acc=lambda l: True, rec_pure=lambda e: True, rec_scope=True, after=after, after_throw=after, may_throw=lambda e: e.k == 'invoke', max_states=20000)
    E = Engine(M.P, this_cls='dots::Connection', **kw)
    LC = Life(M.P)
    stage = {h.u for cur, msg, props, h, ps, src in M.automaton(ctx)}
    kept = True
    fs = {f.u: f for f, _ in M.roots(ctx)}
    order = sorted(fs.values(), key=lambda f: f.u != M.rx.u)
    for f in order:
        if f.kind in ('dtor', 'ctor') or '::~' in f.q: continue
        if f.u in stage and kept and f.acc != 0: continue      # only called by the receive handler, which keeps the connection alive
        bads = []; tot = 0
        for p in E.run(f):
            if not any(e.k == 'invoke' for e in p.tr): continue
            bad, n = LC.scan(p.tr, 0, THIS, True); bads += bad; tot += 1
        if not tot: continue
        ctx.fns([f]); ok = not bads
        if f.u == M.rx.u:
            # every handler called while receiving is covered by a strong reference
            for p in E.run(f):
                h = {}
                for e in p.tr:
                    if e.k == 'hold' and LC.derived(e.a[0], THIS, p.tr): h[e.o] = 1
                    elif e.k == 'drop': h.pop(e.o, None)
                    elif e.k == 'invoke' and not h: kept = False
        ctx.ob('connection', f.short(), ok, at(f), '' if ok else 'accesses %s at %s after the handler called at %s might have released the connection' % (bads[0][0].q, bads[0][0].loc(), bads[0][1].loc()))
        if f.u != M.rx.u: continue
        # what the receive callback tells the channel after handlers ran
        for p in E.run(f):
            inv = [i for i, e in enumerate(p.tr) if e.k == 'invoke']
            if not inv: continue
            last = p.tr[inv[-1]]
            late = [i for i, e in enumerate(p.tr) if e.k == 'acc' and e.o is not None and e.o is M.fstate and i > inv[-1]]
            isclosed = lambda a: a.op == '==' and len(a.a) == 2 and any(x.op == 'enum' and x.a[0].endswith('::closed') for x in a.a) and any(x.op == 'ret' and M.state in str(x.a[0]) for x in a.a)
            if p.how == 'throw':
                ok = bool(late) and any(isclosed(a) and v is False for a, v in p.facts.items())
                why = 'an exception is passed to the channel although the handler might have closed and released the connection'
            else:
                r = p.val
                ok = r is FALSE or r is last.ret and 'Connection &' in str(last.extra or '') + str(last.node.get('q') or '') + ' '.join(str(x) for x in last.a) or r is last.ret and len(last.a) == 2
                if not ok and late: ok = r is not None and (r.op == 'not' and isclosed(r.a[0]) or r is TRUE and any(isclosed(a) and v is False for a, v in p.facts.items()) or r.op == '!=' and isclosed(T('==', *r.a)))
                why = 'the channel is told to continue although the handler might have closed the connection (returns %s)' % (show(r) if r is not None else None)
            ctx.ob('stop', '%s:%s' % (f.q, p.how), ok, last.loc(), '' if ok else why)
    ctx.need('connection', 2); ctx.need('stop', 3)
    # --- owners
    P2 = load(ctx, ['lib/src/GuestTransceiver.cpp', 'lib/src/HostTransceiver.cpp', 'lib/src/Connection.cpp', 'lib/src/Transceiver.cpp', 'lib/src/dots.cpp'])
    for cls in ('dots::GuestTransceiver', 'dots::HostTransceiver'):
        rxs = set()
        for f in P2.fns.values():
            if f.clsq != cls or f.b is None: continue
            for n in nodes(f.b):
                if n['k'] == 'call' and n.get('q') == 'dots::Connection::asyncReceive':
                    E2 = Engine(P2, this_cls=cls, opaque=foreign(P2, cls))
                    for p in E2.run(f):
                        for e in p.tr:
                            if e.k == 'call' and e.q == 'dots::Connection::asyncReceive':
                                c = [lam_targets(P2, a, (cls, 'dots::Transceiver')) for a in e.a]; c = [x for x in c if x]
                                if c: rxs |= c[0]
                    break
        for u in rxs:
            f = P2.fns.get(u)
            if f is None or f.b is None: raise AnalysisBroken('no body of the receive handler of ' + cls)
            par = [p['n'] for p in f.ps if 'Connection' in p['t']]
            if not par: raise AnalysisBroken('the receive handler of %s does not take the connection' % cls)
            isconn = lambda t: t is not None and t.op in ('par', 'var') and t.a[-1] in par
            E2 = Engine(P2, this_cls=cls, opaque=foreign(P2, cls), rec_pure=lambda e: True, rec_scope=True)
            for p in E2.run(f):
                if p.how == 'throw': continue
                user = [i for i, e in enumerate(p.tr) if e.k in ('call', 'invoke') and not e.q.startswith('std::')]
                hold = {}; held = True
                for e in p.tr:
                    if e.k == 'hold' and 'shared_ptr<dots::Connection>' in str(e.node.get('t')): hold[e.o] = 1
                    elif e.k == 'drop': hold.pop(e.o, None)
                    elif e.k in ('call', 'invoke') and not e.q.startswith('std::') and not hold: held = False
                chk = [i for i, e in enumerate(p.tr) if e.k in ('pure', 'call') and isconn(e.o) and e.name() in ('closed', 'state', 'connected')]
                r = p.val
                ok = r is FALSE or not user or bool(chk) and chk[-1] > max([i for i in user if i not in chk] or [-1])
                if ok and r is TRUE and user: ok = any(mentions(a, isconn) for a in p.facts)
                ctx.ob('owner', '%s:%s' % (f.q, 'continue'), ok, at(f), '' if ok else 'continues to receive on a connection that a subscriber might have closed (returns %s)' % show(r))
                ctx.ob('owner', '%s:%s' % (f.q, 'alive'), held or kept, at(f), '' if held or kept else 'the connection might be destroyed while the transmission is processed')
            ctx.fns([f])
    ctx.need('owner', 6)
    ctx.engine(E)
