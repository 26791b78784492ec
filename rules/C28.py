from .async_ import *
from .common import *
RECV = ('bool (dots::io::Transmission)', 'bool (dots::io::Listener &, std::shared_ptr<dots::io::Channel>)')
ERR = ('void (std::__exception_ptr::exception_ptr)', 'void (dots::io::Listener &, std::__exception_ptr::exception_ptr)')

def same(a, b): return a is b or a is not None and a.op == 'fld' and a.a[1] == b.a[1] and show(a) == show(b)

class Flags:
    """handlers and the activity flag of channels and listeners"""
    def __init__(self, A):
        P = A.P; self.recv = {}; self.err = {}; self.flag = {}; self.base = {}; self.start = {}
        for base, types in ((CH, A.channels), (LI, A.listeners)):
            fl = P.records[base]['fields']
            r = [x['n'] for x in fl if any(s in x['t'] for s in RECV)]; e = [x['n'] for x in fl if any(s in x['t'] for s in ERR)]
            if len(r) != 1 or len(e) != 1: raise AnalysisBroken('handlers of %s not found' % base)
            name = 'asyncReceive' if base == CH else 'asyncAccept'
            self.start[base] = name; self.recv[base] = r[0]; self.err[base] = e[0]
            bools = {x['n'] for x in fl if x['t'] == 'bool'}; cand = None
            for t, f, ps in A.entries:
                if f.q != base + '::' + name: continue
                for p in ps:
                    if p.how == 'throw': continue
                    s = {x.o.a[1] for x in p.tr if x.k == 'set' and x.o is not None and x.o.op == 'fld' and x.o.a[0] is THIS and x.a and x.a[0] is TRUE} & bools
                    cand = s if cand is None else cand & s
            if not cand or len(cand) != 1: raise AnalysisBroken('the flag that tells whether a %s is active was not found: %s' % (base, cand))
            self.flag[base] = cand.pop()
            for t in types: self.base[t] = base
    def kind(self, e):
        """('recv'|'err', object, base) of a handler call"""
        if e.k != 'invoke' or e.o is None: return None
        for x in walk(e.o):
            if x.op == 'fld':
                for b in (CH, LI):
                    if x.a[1] == self.recv[b] and self.isbase(x.a[0], b, e): return 'recv', x.a[0], b
                    if x.a[1] == self.err[b] and self.isbase(x.a[0], b, e): return 'err', x.a[0], b
        return None
    def isbase(self, o, b, e):
        # the two classes use the same field names: told apart by the number of arguments
        if self.recv[CH] != self.recv[LI] and self.err[CH] != self.err[LI]: return True
        return len(e.a) == (1 if b == CH else 2)
    def active(self, tr, i, R, base, s=0, at_=None):
        """is the object known to be active just before event i"""
        loc = T('fld', R, self.flag[base]); facts = tr[i if at_ is None else at_].facts
        last = None
        for j in range(i - 1, s - 1, -1):
            e = tr[j]
            if e.k == 'set' and same(e.o, loc): return e.a[0] is TRUE
            if dest(tr, j): last = j; break
        ch = 'changed ' + self.flag[base]
        if last is None or R is not THIS:
            if any(v is True and same(a, loc) for a, v in facts.items()): return True
        c = [(x.a[1] if len(x.a) > 1 else 0, v) for a, v in facts.items() for x in [a] if x.op == 'ret' and x.a[0] == ch]
        c = [v for n, v in sorted(c, key=lambda y: y[0])]
        if last is None: return bool(c) and c[-1] is True
        # the value read after the last handler
        before = {a for a in tr[last].facts}
        return any(v is True and a.op == 'ret' and a.a[0] == ch and a not in before for a, v in facts.items())
    def reset(self, tr, i, R, base, s=0):
        """index of the statement that makes the object inactive before event i"""
        loc = T('fld', R, self.flag[base])
        for j in range(i - 1, s - 1, -1):
            e = tr[j]
            if e.k == 'set' and same(e.o, loc): return j if e.a[0] is FALSE else None
            if dest(tr, j): return None
        return None

def impl(e): return e.k == 'call' and e.name() in ('asyncReceiveImpl', 'asyncAcceptImpl')
def segments(A):
    for t, f, ps in A.entries:
        if f.kind == 'dtor' or '::~' in f.q: continue
        for p in ps: yield t, f.short(), at(f), p, 0, None
    for c in A.comps.values():
        for q in c.paths: yield c.cls, c.fn.short(), c.ev.loc(), q, c.start, c

SOCK = ('boost::asio::basic_socket', 'boost::asio::basic_stream_socket', 'boost::beast::websocket::stream', 'boost::asio::basic_socket_acceptor', 'boost::asio::basic_resolver')
def may_fail(e, A):
    """can this call of a completion fail because of what the peer did"""
    if e.k == 'invoke': return True
    if e.k not in ('call', 'ctor') or e.node.get('ne'): return False
    if is_async(e): return False
    if any(e.q.startswith(s) for s in SOCK):
        f = str(e.node.get('f') or '')
        if 'error_code' in f: return False
        return e.name() in ('set_option', 'get_option', 'non_blocking', 'local_endpoint', 'remote_endpoint', 'accept', 'read', 'write', 'close', 'shutdown', 'handshake', 'open', 'bind', 'connect', 'listen', 'native_non_blocking', 'cancel', 'release', 'assign', 'io_control', 'wait', 'read_some', 'write_some', 'send', 'receive')
    if e.q.startswith('dots::') and not e.q.startswith('dots::type::TimePoint'):
        if impl(e) or e.name() in ('asyncReceive', 'asyncAccept', 'ioContext', 'loglevel', 'logger'): return False
        if e.q.startswith(('dots::tools::Log', 'dots::tools::log', 'dots::Transceiver', 'dots::Timer', 'dots::io::posix')): return False
        return True
    return False

def check(ctx, tier):
    ctx.rule('single', 'receiving from a channel (accepting at a listener) is started only if it is not already active, else the caller gets an error and the handlers in place are kept')
    ctx.rule('once', 'the error handler is called only by the step that makes the active channel or listener inactive')
    ctx.rule('silent', 'the receive or accept handler is called only while the channel or listener is active')
    ctx.rule('stop', 'after a handler asked to stop, the channel or listener is inactive if it still exists and starts no operation')
    ctx.rule('finished', 'after the error handler was called no further operation is started')
    ctx.rule('resume', 'the operation that runs a buffered message starts another read only if that message was delivered and the handler asked to continue')
    ctx.rule('reported', 'a failed operation of an active channel is reported to the error handler, unless it was cancelled or the channel has no owner any more')
    ctx.rule('contained', 'no failure of a peer escapes from a completion into the event loop: whatever can fail is enclosed by a handler that catches it')
    ctx.rule('escape', 'an exception leaves a completion only if the owner\'s own error or connect handler has thrown it')
    A = Async(ctx).run(); F = Flags(A); P = A.P
    # --- single
    for t, f, ps in A.entries:
        base = F.base.get(t)
        if base is None or f.q != base + '::' + F.start[base]: continue
        flag = T('fld', THIS, F.flag[base]); own = {F.recv[base], F.err[base]}
        rej = 0
        for p in ps:
            if p.how == 'throw':
                if p.facts.get(flag) is True: rej += 1
            w = [i for i, e in enumerate(p.tr) if e.k in ('set', 'call', 'pure') and (e.k == 'set' or e.name() in ('operator=', 'emplace', 'reset', 'swap')) and e.o is not None and e.o.op == 'fld' and e.o.a[0] is THIS and e.o.a[1] in own]
            for i, e in enumerate(p.tr):
                if not (is_async(e) or impl(e)): continue
                ok = any(x.k == 'set' and x.o is flag and x.a[0] is TRUE for x in p.tr[:i])
                ctx.ob('single', '%s<%s> active' % (f.short(), t.rsplit('::', 1)[-1]), ok, e.loc(), '' if ok else 'the operation is started before the %s is marked as active' % base.rsplit('::', 1)[-1].lower())
                ok = not any(j > i for j in w)
                ctx.ob('single', '%s<%s> handlers' % (f.short(), t.rsplit('::', 1)[-1]), ok, e.loc(), '' if ok else 'the operation is started before the handlers are set')
            ops = w + [i for i, e in enumerate(p.tr) if is_async(e)]
            for i in ops:
                ok = p.tr[i].facts.get(flag) is False
                ctx.ob('single', '%s<%s>' % (f.short(), t.rsplit('::', 1)[-1]), ok, p.tr[i].loc(), '' if ok else 'the handlers are replaced or an operation is started although one is active')
            if p.how != 'throw' and p.facts.get(flag) is True: ctx.ob('single', '%s<%s>' % (f.short(), t.rsplit('::', 1)[-1]), False, at(f), 'a second operation is accepted silently while one is active')
        ctx.ob('single', 'refused by %s<%s>' % (f.short(), t.rsplit('::', 1)[-1]), rej > 0, at(f), '' if rej else 'a second operation is not refused')
    ctx.need('single', 8)
    # --- handlers
    for t, name, where, p, s, c in segments(A):
        if t not in F.base: continue
        tr = p.tr
        for i in range(s, len(tr)):
            e = tr[i]; k = F.kind(e)
            if k is None: continue
            kind, R, base = k
            key = '%s:%s' % (name, base.rsplit('::', 1)[-1])
            if kind == 'recv':
                ok = F.active(tr, i, R, base, s)
                ctx.ob('silent', key, ok, e.loc(), '' if ok else 'the handler is called without knowing that the %s is active' % base.rsplit('::', 1)[-1].lower())
                threw = fails(tr, i) or p.how == 'throw' and all(x.k == 'drop' for x in tr[i + 1:])
                if threw or e.ret is not None and p.facts.get(e.ret) is True and not any(a is e.ret and v is False for x in tr[i:] for a, v in x.facts.items()): continue
                if any(x.facts.get(e.ret) is True for x in tr[i + 1:]): continue
                loc = T('fld', R, F.flag[base])
                rest = tr[i + 1:]
                # another name of the same object (obtained by lock())
                off = any(x.k == 'set' and x.o is not None and x.o.op == 'fld' and x.o.a[1] == F.flag[base] and x.a[0] is FALSE for x in rest)
                gone = any(life(y) or y.op == 'ret' and str(y.a[0]).endswith('::lock') for a, v in p.facts.items() for y in walk(a) if e.facts.get(a) is not v)
                ok = off or gone
                ctx.ob('stop', key, ok, e.loc(), '' if ok else 'the %s remains active after its handler asked to stop' % base.rsplit('::', 1)[-1].lower())
                bad = [x for x in rest if is_async(x) or impl(x)]
                ctx.ob('stop', key + ' operations', not bad, e.loc(), '' if not bad else 'an operation is started at %s after the handler asked to stop' % bad[0].loc())
            else:
                r = F.reset(tr, i, R, base, s)
                ok = r is not None and F.active(tr, r, R, base, s, i)
                ctx.ob('once', key, ok, e.loc(), '' if ok else ('the object is still active when its error handler is called' if r is None else 'the error handler is called without knowing that the object is active'))
                bad = [x for x in tr[i + 1:] if is_async(x) or impl(x) or (F.kind(x) or ('',))[0] == 'err' and F.kind(x)[1] is R]
                ctx.ob('finished', key, not bad, e.loc(), '' if not bad else 'at %s %s follows the report of a failure' % (bad[0].loc(), bad[0].q))
                on = [x for x in tr[i + 1:] if x.k == 'set' and x.o is not None and x.o.op == 'fld' and x.o.a[1] == F.flag[base] and x.a[0] is not FALSE]
                ctx.ob('finished', key + ' inactive', not on, e.loc(), '' if not on else 'the object becomes active again after it reported a failure')
    ctx.need('silent', 6); ctx.need('once', 6); ctx.need('stop', 6)
    # every statement that makes an object active or inactive
    for t, name, where, p, s, c in segments(A):
        if t not in F.base: continue
        for e in p.tr[s:]:
            if e.k == 'set' and e.o is not None and e.o.op == 'fld' and e.o.a[1] == F.flag[F.base[t]] and e.o.a[0] is THIS and e.a and e.a[0] is not FALSE:
                ok = any(x in name for x in F.start.values()) or ' ctor' in name or any(f.short() == name and f.kind == 'ctor' for _, f, _ in A.entries)
                if not ok: ctx.ob('finished', name + ' activates', False, e.loc(), 'the object is made active by something other than the start of the operation')
    # --- resume
    for t, fname, where, p, s, c0 in segments(A):
        if t in F.base:
            d = [(i, e) for i, e in enumerate(p.tr) if i >= s and e.k == 'call' and e.q == 'boost::asio::dispatch' and any(a.op == 'lam' for a in e.a)]
            for i, e in d:
                nxt = [x for x in p.tr[i + 1:] if is_async(x) or impl(x)]
                if not nxt: continue
                x = nxt[0]
                conds = {}
                for a, v in x.facts.items():
                    if a.op == 'ret' and str(a.a[0]).startswith('changed ') and a not in e.facts: conds[a.a[0][8:]] = v
                key = fname
                before = {}
                for y in p.tr[:i]:
                    if y.k == 'set' and y.o is not None and y.o.op == 'fld' and y.o.a[0] is THIS: before[y.o.a[1]] = y.a[0]
                conds = {n: v for n, v in conds.items() if before.get(n) is (FALSE if v else TRUE)}
                ctx.ob('resume', key + ' condition', bool(conds), x.loc(), '' if conds else 'a read is started after the message that was already buffered, whatever became of it')
                for l in e.a:
                    if l.op != 'lam': continue
                    for c in A.comps.values():
                        if c.lam.a[0] != l.a[0] and c.node is not Engine.lams[l.a[0]][0]: continue
                        if c.cls != t: continue
                        for q in c.paths:
                            tr = q.tr[c.start:]
                            # a delivered message with the request to continue, or a further read
                            inv = [(j, y, F.kind(y)) for j, y in enumerate(tr) if F.kind(y)]
                            good = inv and inv[-1][2][0] == 'recv' and (q.facts.get(inv[-1][1].ret) is True or any(y.facts.get(inv[-1][1].ret) is True for y in tr))
                            if good: continue
                            st = {}
                            for y in tr:
                                if y.k == 'set' and y.o is not None and y.o.op == 'fld' and y.o.a[0] is THIS: st[y.o.a[1]] = y.a[0]
                            bad = [n for n, v in conds.items() if st.get(n) is (TRUE if v else FALSE)]
                            ok = len(bad) < len(conds) or not conds
                            ctx.ob('resume', key, ok, c.ev.loc(), '' if ok else 'reading is resumed (%s) although no message was delivered or the handler asked to stop' % ', '.join(bad))
    # --- failures of operations
    for c in A.comps.values():
        base = F.base.get(c.cls)
        if base is None: continue
        name = c.fn.short()
        for q in c.paths:
            tr = q.tr[c.start:]
            ec = [a for a, v in q.facts.items() if v is True and a.op in ('par', 'pc', 'ret') and any(x.op == 'par' for x in walk(a)) and _is_ec(c, a)]
            if base == LI and any(F.kind(e) and F.kind(e)[0] == 'recv' for e in tr): pass
            if not ec: continue
            if base == LI and 'acceptor' not in c.ev.q: continue         # only the handshake of one client: C27
            rep = [e for e in tr if F.kind(e) and F.kind(e)[0] == 'err' or e.k == 'invoke' and e.o is not None and e.o.op == 'par']
            excuse = any(mentions(a, life) or a is T('fld', THIS, F.flag[base]) and v is False or a.op in ('ret', 'pc') and 'is_open' in str(a.a[0]) and v is False or 'operation_aborted' in show(a) and v is True and a.op in ('==', 'pc', 'ret') for a, v in q.facts.items() if _excused(a, v, F.flag[base]))
            retry = any(is_async(e) for e in tr)
            ok = bool(rep) or excuse or (base == CH and retry)
            ctx.ob('reported', name, ok, c.ev.loc(), '' if ok else 'the operation failed, but the failure is not reported')
    ctx.need('reported', 6)
    # --- containment
    for c in A.comps.values():
        base = F.base.get(c.cls)
        if base is None: continue
        name = c.fn.short()
        for q in c.paths:
            tr = q.tr[c.start:]
            owner = False
            for j, e in enumerate(tr):
                k = F.kind(e)
                if k and k[0] == 'err' or e.k == 'invoke' and not k: owner = True; continue
                if not may_fail(e, A): continue
                any_ = any('...' in h for h in e.trys); std_ = any(any('std::exception' in x for x in h) for h in e.trys)
                ok = any_ or std_ and not (k and k[0] == 'recv')
                ctx.ob('contained', '%s:%s' % (name, e.name() or 'handler'), ok, e.loc(), '' if ok else 'a failure of %s is not caught and escapes into the event loop' % (e.q or 'the handler'))
            for e in tr:
                if e.k == 'terminate' and not owner: ctx.ob('escape', name + ' noexcept', False, e.loc(), 'an exception leaves %s, which ends the program' % e.q)
            if q.how == 'throw' and not any(e.k == 'terminate' for e in tr): ctx.ob('escape', name, owner, c.ev.loc(), '' if owner else 'an exception escapes from the completion into the event loop')
    ctx.need('contained', 20)

def _is_ec(c, a):
    ps = c.node.get('ps') if c.node.get('ps') is not None else next((x['ps'] for x in c.node.get('specs', []) if x.get('b') is not None), [])
    ecs = {p['n'] for p in ps if 'error_code' in p['t']}
    return any(x.op == 'par' and x.a[0] in ecs for x in walk(a)) and a.op in ('par', 'pc') and (a.op == 'par' or 'operator bool' in str(a.a[0]) or 'failed' in str(a.a[0]))

def _excused(a, v, flag):
    s = show(a)
    if a.op in ('ret', 'pc') and str(a.a[0]).endswith('expired') : return v is True
    if a.op in ('ret', 'pc') and str(a.a[0]).endswith('lock'): return v is False
    if 'use_count' in s: return True
    if a.op == 'fld' and a.a[1] == flag: return v is False
    if a.op == 'ret' and a.a[0] == 'changed ' + flag: return v is False
    if 'is_open' in s: return v is False
    if 'operation_aborted' in s: return v is True
    return False
