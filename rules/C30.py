from .common import *

LOOP = {'run', 'run_one', 'run_for', 'run_until', 'run_one_for', 'run_one_until', 'poll', 'poll_one'}
APP = 'dots::Application'
def is_loop(e): return e.k == 'call' and e.name() in LOOP and 'io_context' in e.q
def ctxcall(e, name): return e.k == 'call' and e.name() == name and 'io_context' in e.q
def says(facts, pred):
    r = {v for a, v in facts.items() if pred(a)}
    return None if len(r) != 1 else next(iter(r))
def isnull(a, v, pred):
    """does the fact tell that something fulfilling pred is null (True), not null (False) or nothing (None)"""
    if a.op in ('==', 'peq') and NULL in a.a and any(isinstance(y, Term) and pred(y) for y in a.a): return v
    if pred(a): return not v
    return None

def runl(E, lam, st):
    """the paths of a completion, which is executed later: nothing is known about the object then"""
    node, this, fn = Engine.lams[lam.a[0]]
    s = st.fork(); s.facts = {}; s.eq = {}
    for l in [l for l in s.heap if l.op == 'fld' and E.under(l, THIS)]: del s.heap[l]
    ps = node['ps'] if node.get('ps') is not None else next((x['ps'] for x in node.get('specs', []) if x.get('b') is not None), [])
    return E.run_lambda(lam, s, [T('par', p['n'] or '_%d' % j) for j, p in enumerate(ps)])

def check(ctx, tier):
    ctx.rule('connected', 'the constructor of a guest application returns only when its transceiver was found to be connected, after the last time the event loop was run')
    ctx.rule('waiting', 'while waiting for the host, the event loop is run only if there was no failure and the connection is still open, and running out of work ends the wait')
    ctx.rule('reported', 'a failed connection is stored by the transition handler, which is installed on the created transceiver, and thrown by the constructor')
    ctx.rule('ended', 'losing the connection ends the application: the transition handler stops the event loop exactly if the connection is closed')
    ctx.rule('undone', 'when the constructor fails, the global transceiver it created is destroyed once and the event loop is usable again')
    ctx.rule('destroyed', 'the destructor stops the event loop and the handling of signals, destroys the transceiver of the application exactly once, and touches the transceiver no more')
    ctx.rule('exit', 'ending an application stores the exit code and stops the event loop; executing it runs the event loop and returns the stored code')
    ctx.rule('signal', 'a signal ends the application, unless waiting for it was cancelled or the application was destroyed')
    ctx.rule('configured', 'the endpoint is taken from the command line, else from the environment, else the default')
    ctx.rule('global', 'the global transceiver is created only if there is none and destroyed only if there is one, after its subscriptions were cleared')
    ctx.rule('result', 'a posted handler is invoked once and its result or exception is given to the waiting caller; nothing escapes into the event loop')
    P = load(ctx, ['lib/src/Application.cpp', 'lib/src/dots.cpp', 'lib/src/GuestTransceiver.cpp'], extra=['inst_post.cpp'])
    flag = one_field(P, APP, 'exception_ptr'); code = 'm_exitCode'
    ints = fields_of_type(P, APP, 'int')
    ints = [x['n'] for r in P.records_q[APP] for x in r['fields'] if x['t'] == 'int']
    if len(set(ints)) != 1: raise AnalysisBroken('the exit code of %s was not found: %s' % (APP, ints))
    code = ints[0]
    tptr = [x['n'] for r in P.records_q[APP] for x in r['fields'] if x['t'] == 'dots::Transceiver *']
    if len(set(tptr)) != 1: raise AnalysisBroken('the transceiver of %s was not found' % APP)
    tptr = tptr[0]
    ep = [x['n'] for r in P.records_q[APP] for x in r['fields'] if x['t'].startswith('std::optional<dots::io::Endpoint')]
    guest = one_field(P, APP, 'optional<dots::GuestTransceiver'); host = one_field(P, APP, 'optional<dots::HostTransceiver')
    conn = one_field(P, 'dots::GuestTransceiver', 'shared_ptr<dots::Connection')
    sig = one_field(P, APP, 'signal')
    isflag = lambda y: y.op == 'fld' and y.a[1] == flag or y.op == 'ret' and y.a[0] == 'changed ' + flag
    isconn = lambda y: y.op in ('pc', 'ret') and str(y.a[0]) == 'dots::GuestTransceiver::connected'
    isopen = lambda y: y.op == 'fld' and y.a[1] == conn
    parse = {f.u for f in P.fns.values() if f.clsq == APP and f.b is not None and any(x['t'] == 'char **' for x in f.ps) and f.kind == 'method'}
    def after(E, st, e):
        if e.k != 'call': return
        eff = is_loop(e) or e.q in ('dots::GuestTransceiver::open', 'dots::GuestTransceiver::publish') or e.node.get('f') in parse
        if not eff: return
        dead = lambda a: any(isconn(x) or isopen(x) or isflag(x) for x in walk(a))
        st.facts = {a: v for a, v in st.facts.items() if not dead(a)}; st.eq = {a: v for a, v in st.eq.items() if not dead(a)}
        for n in ([flag] + ep if e.node.get('f') in parse else [flag]):
            st.n += 1; E.write(st, T('fld', THIS, n), T('ret', 'changed ' + n, st.n))
    CREATE = 'dots::global_transceiver_create'; DESTROY = 'dots::global_transceiver_destroy'
    transparent = {'dots::GuestTransceiver::hasConnection'}
    opq = lambda f: f.u in parse or f.q in (CREATE, DESTROY) or f.clsq != APP and f.q not in transparent and not (f.file.endswith('Application.cpp') and not f.clsq)
    fails = lambda e: e.k in ('call', 'ctor') and (e.q in (CREATE, 'dots::GuestTransceiver::open', 'dots::GuestTransceiver::publish', 'dots::HostTransceiver::listen') or is_loop(e) and not e.name().startswith('poll'))
    mk = lambda **kw: Engine(P, opaque=opq, this_cls=APP, after=after, **kw)
    fns = [f for f in P.fns.values() if f.clsq == APP and f.b is not None and not f.imp]
    handlers = set(); nw = 0; ended = 0
    for f in sorted(fns, key=lambda f: f.u):
        if f.kind != 'ctor' or not any('GuestTransceiver' in x['t'] for x in f.ps) : continue
        ctx.fns([f]); E = mk(may_throw=fails)
        ps = E.run(f); ctx.engine(E)
        if not any(e.q == 'dots::GuestTransceiver::open' for p in ps for e in p.tr): continue     # delegates
        out = False
        for p in ps:
            tr = p.tr
            op = [i for i, e in enumerate(tr) if e.q == 'dots::GuestTransceiver::open' and e.k == 'call']
            cr = [i for i, e in enumerate(tr) if e.q == CREATE and e.k == 'call']
            for e in tr:
                if e.q == 'dots::GuestTransceiver::GuestTransceiver' or e.k == 'ctor' and e.name() == 'GuestTransceiver':
                    hs = {x.a[0] for a in e.a for x in walk(a) if x.op == 'fnref' and str(x.a[0]).startswith(APP)} | {x for a in e.a for x in walk(a) if x.op == 'lam'}
                    ok = bool(hs)
                    ctx.ob('reported', 'handler installed', ok, e.loc(), '' if ok else 'the created transceiver does not report the state of its connection')
                    handlers |= {h for h in hs}
            if p.how == 'ret':
                last = max([i for i, e in enumerate(tr) if is_loop(e)] + op + [-1])
                c = list({a: 1 for fs in [e.facts for e in tr[last + 1:]] + [p.facts] for a, v in fs.items() if isconn(a) and v is True})
                ok = len(op) >= 1 and len(c) == 1 and (tr[op[-1]].o is None or c[0].a[1] is tr[op[-1]].o or show(c[0].a[1]) == show(tr[op[-1]].o))
                ctx.ob('connected', f.short(), ok, at(f), '' if ok else 'returns without having found the transceiver connected; ' + pathstr(p))
                ok = len(op) == 1
                ctx.ob('connected', f.short() + ' opened', ok, at(f), '' if ok else 'the connection is opened %d times' % len(op))
                bad = [v for a, v in p.facts.items() if isnull(a, v, isflag) is False]
                ctx.ob('connected', f.short() + ' failed', not bad, at(f), '' if not bad else 'returns although the connection failed')
            for i, e in enumerate(tr):
                if not is_loop(e): continue
                if e.name().startswith('poll') or not op or i < op[0]: continue
                nw += 1
                nul = [isnull(a, v, isflag) for a, v in e.facts.items()]
                ok = True in nul
                ctx.ob('waiting', f.short() + ' failed', ok, e.loc(), '' if ok else 'waits without checking whether the connection failed; ' + pathstr(p))
                ok = False in [isnull(a, v, isopen) for a, v in e.facts.items()]
                ctx.ob('waiting', f.short() + ' closed', ok, e.loc(), '' if ok else 'waits for a connection that might have been closed; ' + pathstr(p))
                z = [v for a, v in p.facts.items() if a.op in ('==', 'peq') and any(x is e.ret for x in a.a)] + [not v for a, v in p.facts.items() if a is e.ret or a.op == '<' and a.a[1] is e.ret and str(a.a[0].a[0] if a.a[0].a else '') == '0']
                if True in z: out = True; ctx.ob('waiting', f.short() + ' ended', p.how == 'throw', e.loc(), '' if p.how == 'throw' else 'continues although there is nothing to wait for')
            if p.how == 'throw' and op:
                de = [i for i, e in enumerate(tr) if e.q == DESTROY and e.k == 'call']
                rs = [i for i, e in enumerate(tr) if ctxcall(e, 'restart')]
                mine = bool(cr)
                ok = len(de) == (1 if mine else 0)
                ctx.ob('undone', f.short() + (' own' if mine else ' given'), ok, at(f), '' if ok else ('the global transceiver, which refers to the application, survives it' if not de else 'a transceiver that was not created here is destroyed') + '; ' + pathstr(p))
                ctx.ob('undone', f.short() + ' restart', len(rs) >= 1, at(f), '' if rs else 'the event loop remains stopped; ' + pathstr(p))
                late = [e for e in tr[de[0] + 1:] if e.o is not None and any(x.op == 'new' and 'GuestTransceiver' in str(x.a[0]) or x.op == 'fld' and x.a[1] == tptr or x.op == 'ret' and x.a[0] == CREATE for x in walk(e.o))] if de else []
                ctx.ob('undone', f.short() + ' order', not late, at(f), '' if not late else 'the destroyed transceiver is accessed; ' + pathstr(p))
        ctx.ob('waiting', f.short() + ' work', out, at(f), '' if out else 'running out of work does not end the wait')
        ok = any(p.how == 'throw' and any(isnull(a, v, isflag) is False for a, v in p.facts.items()) for p in ps)
        ctx.ob('reported', f.short(), ok, at(f), '' if ok else 'a failure of the connection is not thrown')
    ctx.need('connected', 2); ctx.need('waiting', 3); ctx.need('undone', 3)
    # transition handler
    hf = [f for f in fns if any(str(h) == f.q for h in handlers)]
    if not hf: hf = [f for f in fns if len(f.ps) == 2 and 'Connection' in f.ps[0]['t'] and 'exception_ptr' in f.ps[1]['t']]
    for f in hf:
        ctx.fns([f]); E = mk()
        for p in E.run(f):
            e1 = [e for e in p.tr if e.k == 'set' and e.o is not None and isflag(e.o)]
            e0 = f.ps[1]['n']
            none = any(isnull(a, v, lambda y: y.op == 'par' and y.a[0] == e0) is True for a, v in p.facts.items())
            ok = none or len(e1) >= 1 and any(x.op == 'par' and x.a[0] == e0 for x in walk(e1[-1].a[0]))
            ctx.ob('reported', f.short(), ok, at(f), '' if ok else 'the failure is not stored; ' + pathstr(p))
            cl = says(p.facts, lambda a: a.op in ('pc', 'ret') and str(a.a[0]) == 'dots::Connection::closed')
            st = [e for e in p.tr if ctxcall(e, 'stop')]
            if cl is None:
                cs = [v for a, v in p.facts.items() if 'state' in show(a) and 'closed' in show(a)]
                cl = cs[0] if len(cs) == 1 else None
            ok = cl is True and len(st) >= 1 or cl is False and not st
            ctx.ob('ended', f.short(), ok, at(f), '' if ok else ('the application continues without its connection' if cl is not False else 'the application ends although its connection was not closed') + '; ' + pathstr(p))
            ended += 1
    ctx.need('ended', 2)
    # destructor
    d = [f for f in fns if f.kind == 'dtor']
    for f in d:
        ctx.fns([f]); E = mk()
        for p in E.run(f):
            tr = p.tr; K = lambda e: 'global' if e.q == DESTROY else 'host' if e.o is not None and e.o.op == 'fld' and e.o.a[1] == host and (e.k == 'set' and e.a and e.a[0] is NULL or e.name() == 'reset') else 'guest' if e.o is not None and e.o.op == 'fld' and e.o.a[1] == guest and (e.k == 'set' and e.a and e.a[0] is NULL or e.name() == 'reset') else None
            de = [(i, K(e)) for i, e in enumerate(tr) if K(e)]
            has = lambda n: says(p.facts, lambda a: a.op == 'fld' and a.a[1] == n)
            hh, hg = has(host), has(guest)
            real = [(i, k) for i, k in de if not (k == 'host' and hh is False or k == 'guest' and hg is False)]
            want = 'host' if hh is True else 'guest' if hg is True else 'global' if hh is False and hg is False else None
            ks = [k for i, k in real]; ok = want in ks and (('global' in ks) == (want == 'global')) and len(set(ks)) == len(ks)       # resetting an empty storage does nothing
            ctx.ob('destroyed', 'transceiver', ok, at(f), '' if ok else 'destroys %s' % ([k for i, k in real] or 'nothing') + '; ' + pathstr(p))
            if not real: continue
            x = [i for i, k in real if k == want][0] if want in ks else real[0][0]
            st = [i for i, e in enumerate(tr) if ctxcall(e, 'stop')]; rs = [i for i, e in enumerate(tr) if ctxcall(e, 'restart')]; po = [i for i, e in enumerate(tr) if is_loop(e)]
            sg = [i for i, e in enumerate(tr) if e.o is not None and e.o.op == 'fld' and e.o.a[1] == sig and (e.k == 'set' and e.a[0] is NULL or e.name() == 'reset')]
            ok = bool(st) and st[0] < x and bool(rs) and rs[-1] > st[-1]
            ctx.ob('destroyed', 'loop', ok, at(f), '' if ok else 'the event loop is not stopped before the transceiver is destroyed or not restarted afterwards; ' + pathstr(p))
            ok = not po or bool(sg) and sg[0] < po[0]
            ctx.ob('destroyed', 'signals', ok, at(f), '' if ok else 'a signal handler could still be called while the event loop is polled; ' + pathstr(p))
            late = [e for e in tr[x + 1:] if e.o is not None and mentions(e.o, lambda y: y.op == 'fld' and y.a[1] == tptr)] + [e for i, e in enumerate(tr) if i > x and e.q in ('dots::global_transceiver',)]
            ctx.ob('destroyed', 'late', not late, at(f), '' if not late else 'the destroyed transceiver is accessed; ' + pathstr(p))
    ctx.need('destroyed', 8)
    # exit, exec
    n = {'exit': 0, 'exec': 0}
    for f in fns:
        if f.kind != 'method' or f.q not in (APP + '::exit', APP + '::exec'): continue
        ctx.fns([f]); E = mk(); k = f.q.rsplit('::', 1)[-1]; n[k] += 1
        for p in E.run(f):
            sets = [(i, e) for i, e in enumerate(p.tr) if e.k == 'set' and e.o is not None and e.o.op == 'fld' and e.o.a[1] == code]
            if k == 'exit':
                ok = len(sets) >= 1 and mentions(sets[-1][1].a[0], lambda y: y.op == 'par') and any(ctxcall(e, 'stop') for e in p.tr)
                ctx.ob('exit', f.short(), ok, at(f), '' if ok else 'the exit code is not stored or the event loop not stopped; ' + pathstr(p))
            else:
                r = [i for i, e in enumerate(p.tr) if is_loop(e) and e.name() == 'run']
                rd = f.b; ok = len(r) == 1 and not [i for i, e in sets if i > r[0]]
                ctx.ob('exit', f.short(), ok, at(f), '' if ok else 'the event loop is not run once or the exit code is changed afterwards; ' + pathstr(p))
    ctx.need('exit', 2)
    globals_(ctx, P); result(ctx, P); signals(ctx, P, mk, fns)
    configured(ctx, P, parse)

def globals_(ctx, P):
    g = [f for f in P.fns.values() if f.q in ('dots::global_transceiver_create', 'dots::global_transceiver_destroy') and f.b is not None]
    E = Engine(P, opaque=lambda f: not f.q.startswith('dots::global_transceiver'))
    isg = lambda x: x.op == 'glob' and 'transceiver' in str(x.a[0]).lower()
    for f in sorted(g, key=lambda f: f.q):
        ctx.fns([f]); create = f.q.endswith('create')
        for p in E.run(f):
            ex = says(p.facts, lambda a: isg(a) or a.op == '!=' and any(isg(x) for x in a.a) or a.op in ('pc', 'ret') and str(a.a[0]).endswith('_is_set'))
            w = [(i, e) for i, e in enumerate(p.tr) if e.o is not None and isg(e.o) and (e.k == 'set' or e.name() in ('emplace', 'reset'))]
            cl = [i for i, e in enumerate(p.tr) if e.name() == 'clear' and e.o is not None and mentions(e.o, isg)]
            if ex is None: ctx.ob('global', f.short(), False, at(f), 'does not check whether there is a global transceiver; ' + pathstr(p)); continue
            if ex == create: ok = p.how == 'throw' and not w; why = 'a second global transceiver replaces the first one' if create else 'destroys a transceiver that does not exist'
            elif create: ok = p.how == 'ret' and len(w) == 1 and any(mentions(a, lambda y: y.op == 'par') for a in w[0][1].a); why = 'the transceiver is not stored'
            else: ok = p.how == 'ret' and len(w) == 1 and (w[0][1].a[:1] == (NULL,) or w[0][1].name() == 'reset') and bool(cl) and cl[0] < w[0][0]; why = 'the transceiver is not cleared and then destroyed'
            ctx.ob('global', f.short(), ok, at(f), '' if ok else why + '; ' + pathstr(p))
    ctx.need('global', 4)

def result(ctx, P):
    fs = [f for f in P.fns.values() if f.q == 'dots::io::post_and_promise_result' and f.b is not None and not f.is_lambda and len(f.ps) == 2]
    fails = lambda e: e.k == 'invoke' or e.name() == 'invoke'
    for f in sorted(fs, key=lambda f: f.u):
        ctx.fns([f]); E = Engine(P, opaque=lambda f: False, may_throw=fails); kind = 'void' if 'void ()' in f.ps[1]['t'] else 'value'
        for p in E.run(f):
            po = [e for e in p.tr if e.k == 'call' and e.q.startswith('boost::asio::') and any(a.op == 'lam' for a in e.a)]
            fu = [e for e in p.tr if e.name() == 'get_future']
            ok = p.how == 'ret' and len(po) == 1 and len(fu) == 1 and p.val is fu[0].ret and any(x.op == 'par' and x.a[0] == f.ps[0]['n'] for a in po[0].a for x in walk(a))
            ctx.ob('result', '%s %s posted' % (f.short(), kind), ok, at(f), '' if ok else 'the handler is not posted once with the promise of the returned future; ' + pathstr(p))
            for e in po:
                lam = next(a for a in e.a if a.op == 'lam')
                for q in runl(E, lam, p.st):
                    tr = q.tr[len(p.tr):]
                    iv = [i for i, x in enumerate(tr) if fails(x)]
                    ct = [i for i, x in enumerate(tr) if x.k == 'catch']
                    sv = [i for i, x in enumerate(tr) if x.k == 'call' and x.name() == 'set_value']; se = [i for i, x in enumerate(tr) if x.k == 'call' and x.name() == 'set_exception']
                    if q.how == 'throw': ok = False; why = 'an exception of the handler escapes into the event loop and the caller waits in vain'
                    elif len(iv) != 1: ok = False; why = 'the handler is invoked %d times' % len(iv)
                    elif ct and ct[0] > iv[0]:
                        ok = len(se) == 1 and not sv and se[0] > ct[0]; why = 'the exception of the handler is not given to the caller'
                        if ok: ok = any(x.op in ('pc', 'ret') and str(x.a[0]).endswith('current_exception') for x in walk(tr[se[0]].a[0])) or mentions(tr[se[0]].a[0], lambda x: x.op == 'exc'); why = 'the caller gets another exception than the one of the handler'
                    else:
                        ok = len(sv) == 1 and not se and sv[0] > iv[0]; why = 'the result is not given to the caller once, after the handler was invoked'
                        if ok and kind == 'value': ok = bool(tr[sv[0]].a) and tr[sv[0]].a[0] is tr[iv[0]].ret; why = 'the caller gets %s instead of the result' % (show(tr[sv[0]].a[0]) if tr[sv[0]].a else 'nothing')
                    ctx.ob('result', '%s %s' % (f.short(), kind), ok, e.loc(), '' if ok else why)
        ctx.engine(E)
    ctx.need('result', 6)

def signals(ctx, P, mk, fns):
    for f in sorted(fns, key=lambda f: f.u):
        if f.is_lambda or f.kind == 'dtor': continue
        E = mk()
        if not any(n.get('k') == 'lambda' for n in nodes(f.b)) : continue
        seen = set()
        for p in E.run(f):
            for e in p.tr:
                if not (e.k == 'call' and e.name() == 'async_wait' and 'signal' in e.q): continue
                lam = next((a for a in e.a if a.op == 'lam'), None)
                if lam is None or lam.a[0] in seen: continue
                seen.add(lam.a[0]); node, this, fn = E.lams[lam.a[0]]
                for q in runl(E, lam, p.st):
                    fc = q.facts
                    st = [x for x in q.tr[len(p.tr):] if ctxcall(x, 'stop')]
                    neg = any('expired' in show(a) and v is True or a.op in ('par', 'pc', 'ret') and ('error' in show(a)) and v is True or a.op in ('==', 'peq') and 'error' in show(a) and v is True and 'lock' not in show(a) or isnull(a, v, lambda y: 'lock' in show(y)) is True for a, v in fc.items())
                    ok = bool(st) != neg
                    ctx.ob('signal', f.short(), ok, e.loc(), '' if ok else 'the application %s' % ('ends although the wait was cancelled' if st else 'does not end') + '; ' + str({show(a): v for a, v in fc.items()}))
    ctx.need('signal', 4)

def configured(ctx, P, parse):
    """option > environment > default, decided per path from the facts about both sources"""
    def lit(t, s): return mentions(t, lambda y: y.op == 'str' and str(y.a[0]).strip('"') == s)
    for u in sorted(parse):
        f = P.fns[u]; E = Engine(P, opaque=lambda f: f.clsq != APP); ctx.fns([f])
        ps = E.run(f); ctx.engine(E)
        guest = any(e.k == 'set' and e.o is not None and e.o.op == 'fld' and 'Endpoint' in str(e.node.get('t', '')) or e.name() == 'setUserPassword' for p in ps for e in p.tr)
        for opt, env in (('dots-endpoint', 'DOTS_ENDPOINT'), ('dots-auth-secret', 'DOTS_AUTH_SECRET')):
            if opt == 'dots-auth-secret' and not any(e.name() == 'setUserPassword' for p in ps for e in p.tr): continue
            for p in ps:
                if p.how == 'throw': continue
                made = {e.ret: e for e in p.tr if e.ret is not None}
                envs = {e.ret for e in p.tr if e.name() in ('getenv', 'secure_getenv') and any(lit(a, env) for a in e.a)}
                h = v_ = None
                for a, v in p.facts.items():
                    if lit(a, opt):
                        r = not v if a.op in ('==', 'peq') or a.op in ('pc', 'ret') and str(a.a[0]).endswith('empty') else v
                        h = r
                    for x in envs:
                        if a is x: v_ = v
                        elif a.op in ('==', 'peq') and x in a.a and NULL in a.a: v_ = not v
                want = 'command line' if h else 'environment' if v_ else 'default'
                used = []
                for i, e in enumerate(p.tr):
                    if opt == 'dots-endpoint':
                        if not (e.o is not None and e.o.op == 'fld' and e.o.a[0] is THIS and 'ndpoint' in e.o.a[1] and (e.k == 'set' or e.name() in ('emplace', 'emplace_back', 'push_back', 'assign'))): continue
                    elif e.name() != 'setUserPassword': continue
                    if not e.a: continue
                    # what the value is made of, through the calls that compute it
                    src = set(); todo = list(e.a); seen = set(); kinds = set()
                    while todo:
                        for y in walk(todo.pop()):
                            if id(y) in seen: continue
                            seen.add(id(y))
                            if y in envs: kinds.add('environment')
                            if y in made: todo += [x for x in list(made[y].a) + [made[y].o] if x is not None]
                            if lit(y, opt) or str(y.a[0] if y.a else '').endswith('variable_value::as') or 'variables_map' in show(y): kinds.add('command line')
                    used.append(kinds.pop() if len(kinds) == 1 else 'default' if not kinds else '?')
                if opt == 'dots-auth-secret' and want == 'default': ok = not used
                elif opt == 'dots-endpoint' and not used: ok = want == 'command line' and not any(e.name() == 'setUserPassword' for p in ps for e in p.tr)      # an empty list of endpoints
                else: ok = bool(used) and used[-1] == want
                # a source is used only if those with precedence were asked and had no value (there are no options without a command line)
                if ok and used and used[-1] != 'command line' and h is None and any(e.name() == 'store' and 'program_options' in e.q for e in p.tr): ok = False; want = 'command line'
                if ok and used and used[-1] == 'default' and v_ is None: ok = False; want = 'environment'
                ctx.ob('configured', '%s %s' % (f.short(), opt), ok, at(f), '' if ok else 'the value of the %s is expected, but %s is used; ' % (want, used or 'nothing') + p.describe())
    ctx.need('configured', 6)
