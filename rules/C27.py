from .C28 import *
from .C28 import _is_ec, _excused
from .host import lam_targets
BLOCKING = ('accept', 'handshake', 'read', 'read_some', 'write', 'write_some', 'connect', 'receive', 'receive_from', 'send', 'send_to', 'wait', 'resolve', 'read_until', 'run', 'run_one', 'poll', 'sleep_for', 'sleep_until', 'join')

def check(ctx, tier):
    ctx.rule('accepting', 'after a client was accepted at the socket the listener accepts the next one on every path, unless its owner asked to stop, it failed itself or it does not exist any more')
    ctx.rule('isolated', 'a failure while a client connects is not reported as a failure of the listener')
    ctx.rule('contained', 'whatever can fail while a client connects is caught, so that it neither escapes into the event loop nor skips accepting the next client')
    ctx.rule('nonblocking', 'no completion of a listener and no constructor of an accepted channel waits for the peer')
    ctx.rule('continued', 'a listener goes on accepting exactly if the accept handler asked for it')
    ctx.rule('pending', 'a flag that tells that an accept is pending is set when it starts and reset when it completes, on all paths')
    ctx.rule('host', 'the accept handler of the host asks to continue whatever happens with one client and lets no failure escape')
    ctx.rule('drop', 'the error handler of the host drops exactly the listener that failed')
    A = Async(ctx)
    A.fault = lambda t, e: t in A.listeners and may_fail(e, A) and e.name() not in ('close', 'cancel')
    A.run(); F = Flags(A); P = A.P
    acc = lambda e: is_async(e) and 'async_accept' in e.q and 'acceptor' in e.q
    def comp_of(e):
        for a in e.a:
            if a.op == 'lam':
                for c in A.comps.values():
                    if c.lam is a or c.node is Engine.lams[a.a[0]][0]: yield c
    lcomps = [c for c in A.comps.values() if F.base.get(c.cls) == LI]
    sock = {c.cls for c in lcomps if acc(c.ev)}
    if len(sock) < 3: raise AnalysisBroken('listeners that accept at a socket not found: %s' % sock)
    for c in lcomps:
        name = c.fn.short(); opens = acc(c.ev)
        for q in c.paths:
            tr = q.tr[c.start:]
            ks = [(j, e, F.kind(e)) for j, e in enumerate(tr) if F.kind(e)]
            recv = [(j, e) for j, e, k in ks if k[0] == 'recv']; err = [(j, e) for j, e, k in ks if k[0] == 'err' and k[2] == LI]
            ec = any(v is True and _is_ec(c, a) for a, v in q.facts.items())
            again = [e for e in tr if acc(e) or impl(e)]
            if opens:
                skip = any(_excused(a, v, F.flag[LI]) for a, v in q.facts.items()) or ec
                if not recv and not skip:
                    ok = bool(again)
                    ctx.ob('accepting', name, ok, c.ev.loc(), '' if ok else 'a client was accepted at the socket, but neither is it delivered nor the next one accepted')
            # err before or without a failed accept handler
            for j, e in err:
                own = any(fails(tr, i) or True for i, x in recv if i < j)
                ok = own or ec and opens
                ctx.ob('isolated', name, ok, e.loc(), '' if ok else 'the failure of one client is reported as failure of the listener, which stops accepting')
            for j, e in enumerate(tr):
                if e.k in ('call', 'pure') and e.q.startswith(('boost::asio', 'boost::beast', 'std::this_thread')) and not is_async(e):
                    bad = e.name() in BLOCKING
                    if bad or e.name() in ('set_option', 'get_option', 'non_blocking', 'close', 'local_endpoint'):
                        ctx.ob('nonblocking', '%s:%s' % (name, e.name()), not bad, e.loc(), '' if not bad else '%s waits for the client while all others are blocked' % e.q)
                if F.kind(e) and F.kind(e)[0] == 'err' or not may_fail(e, A): continue
                k = F.kind(e)
                if e.k == 'invoke' and not k: continue
                any_ = any('...' in h for h in e.trys); std_ = any(any('std::exception' in x for x in h) for h in e.trys)
                ok = any_ or std_ and not k
                ctx.ob('contained', '%s:%s' % (name, e.name() or 'handler'), ok, e.loc(), '' if ok else 'a failure of %s is not caught' % (e.q or 'the accept handler'))
    ctx.need('accepting', 3); ctx.need('isolated', 3); ctx.need('contained', 8)
    # what is reached when a channel of an accepted socket is made
    n = 0
    for t in A.channels:
        for f in P.fns.values():
            if f.kind != 'ctor' or f.b is None or f.cls != t: continue
            if not any(x['t'].rstrip().endswith('&&') and ('socket' in x['t'] or 'stream' in x['t']) for x in f.ps): continue
            E = A.engine(t); n += 1; ctx.fns([f])
            for p in E.run(f):
                bad = [e for e in p.tr if e.k in ('call', 'pure') and e.q.startswith(('boost::asio', 'boost::beast', 'std::this_thread')) and not is_async(e) and e.name() in BLOCKING]
                ctx.ob('nonblocking', f.short(), not bad, at(f), '' if not bad else '%s at %s waits for the client' % (bad[0].q, bad[0].loc()))
    ctx.need('nonblocking', 8)
    # continue
    for t, name, where, p, s, c in segments(A):
        if F.base.get(t) != LI: continue
        tr = p.tr
        for i in range(s, len(tr)):
            e = tr[i]; k = F.kind(e)
            if k is None or k[0] != 'recv' or k[2] != LI or fails(tr, i): continue
            if not any(x.facts.get(e.ret) is True for x in tr[i + 1:]) and p.facts.get(e.ret) is not True: continue
            ok = t not in sock or any(is_async(x) or impl(x) for x in tr[i + 1:]) or p.how == 'throw' or any(a.op == 'fld' or a.op == 'ret' and str(a.a[0]).startswith('changed ') for a, v in p.facts.items() if v is True and e.facts.get(a) is not v and not a is e.ret)
            ctx.ob('continued', name, ok, e.loc(), '' if ok else 'the accept handler asked to continue, but no further accept is started')
            off = [x for x in tr[i + 1:] if x.k == 'set' and x.o is not None and x.o.op == 'fld' and x.o.a[1] == F.flag[LI] and x.a[0] is FALSE]
            ctx.ob('continued', name + ' active', not off or any(F.kind(x) and F.kind(x)[0] == 'err' for x in tr[i + 1:]), e.loc(), '' if not off else 'the listener stops although the accept handler asked to continue')
    ctx.need('continued', 3)
    # pending flags: bool fields of a listener that suppress an accept
    for t in sorted(sock):
        starts = []; supp = set()
        for tt, f, ps in A.entries:
            if tt != t: continue
            for p in ps:
                for e in p.tr:
                    if acc(e): starts.append((f, p, e))
                if f.q.endswith('::asyncAcceptImpl') and not any(acc(e) for e in p.tr) and p.how != 'throw':
                    supp |= {a.a[1] for a, v in p.facts.items() if a.op == 'fld' and a.a[0] is THIS and v is True}
        ctx.ob('pending', '%s starts' % t.rsplit('::', 1)[-1], bool(starts), '-', '' if starts else 'accepting is never started')
        for fl in supp:
            for f, p, e in starts:
                i = p.tr.index(e)
                st = [x.a[0] for x in p.tr if x.k == 'set' and x.o is not None and x.o.op == 'fld' and x.o.a[1] == fl]
                ctx.ob('pending', '%s:%s set' % (f.short(), fl), bool(st) and st[-1] is TRUE, e.loc(), '' if st and st[-1] is TRUE else 'the flag %s is not set when an accept is started' % fl)
            for c in lcomps:
                if c.cls != t or not acc(c.ev): continue
                for q in c.paths:
                    if any(_excused(a, v, '') and 'expired' in show(a) for a, v in q.facts.items() if q.tr and not any(x.k == 'invoke' for x in q.tr[c.start:])): continue
                    tr = q.tr[c.start:]
                    st = [x for x in tr if x.k == 'set' and x.o is not None and x.o.op == 'fld' and x.o.a[1] == fl]
                    first = st[0].a[0] if st else None
                    j = [i for i, x in enumerate(tr) if impl(x) or acc(x)]
                    ok = first is FALSE and (not j or tr.index(st[0]) < j[0])
                    ctx.ob('pending', '%s:%s reset' % (c.fn.short(), fl), ok, c.ev.loc(), '' if ok else 'the flag %s is not reset when an accept has completed, so no other client is accepted' % fl)
    # --- host
    H = 'dots::HostTransceiver'
    P2 = load(ctx, ['lib/src/HostTransceiver.cpp'])
    op = foreign(P2, H)
    E2 = Engine(P2, this_cls=H, opaque=op)
    acch = set(); errh = set()
    for f in P2.fns.values():
        if f.clsq != H or f.b is None or f.is_lambda: continue
        if not any(n['k'] == 'call' and n.get('q') == 'dots::io::Listener::asyncAccept' for n in nodes(f.b)): continue
        for p in E2.run(f):
            for e in p.tr:
                if e.k == 'call' and e.q == 'dots::io::Listener::asyncAccept':
                    c = [lam_targets(P2, a, (H,)) for a in e.a]
                    if len(c) == 2: acch |= c[0]; errh |= c[1]
    acch = {u for u in acch if P2.fns.get(u) and P2.fns[u].b is not None}; errh = {u for u in errh if P2.fns.get(u) and P2.fns[u].b is not None}
    if not acch or not errh: raise AnalysisBroken('the handlers the host gives to its listeners were not found')
    E3 = Engine(P2, this_cls=H, opaque=op, may_throw=lambda e: e.k in ('call', 'ctor') and not e.node.get('ne') and ('Connection' in e.q or 'make_shared' in e.q) and '::Log' not in e.q and 'std::exception')
    for u in acch:
        f = P2.fns[u]; ctx.fns([f])
        fl = 0
        for p in E3.run(f):
            if p.how == 'throw' :
                ctx.ob('host', f.short(), False, at(f), 'a failure of one client escapes, so that the listener reports an error and is removed'); continue
            fl += any(e.k == 'catch' for e in p.tr)
            ok = p.val is TRUE
            ctx.ob('host', f.short(), ok, at(f), '' if ok else 'stops accepting (returns %s)' % show(p.val))
    ctx.need('host', 2)
    tables = {x['n'] for r in P2.records_q.get(H, []) for x in r['fields'] if 'dots::io::Listener' in x['t']}
    for u in errh:
        f = P2.fns[u]; ctx.fns([f])
        lp = [x['n'] for x in f.ps if 'Listener' in x['t']][0]
        for p in E2.run(f):
            ops = [e for e in p.tr if e.k in ('call', 'set') and e.o is not None and mentions(e.o, lambda x: x.op == 'fld' and x.a[1] in tables) and e.name() in ('erase', 'clear', 'extract', 'swap', 'operator=', 'reset') or e.k == 'set' and e.o is not None and e.o.op == 'fld' and e.o.a[1] in tables]
            good = [e for e in ops if e.name() in ('erase', 'extract') and any(mentions(a, lambda x: x.op in ("par", "var") and x.a[-1] == lp) for a in e.a)]
            ok = len(good) == 1 and len(ops) == 1
            gone = any(e.k in ('call', 'set') and e.name() == 'erase' for e in p.tr)
            if not ops and any(mentions(a, lambda x: x.op in ("par", "var") and x.a[-1] == lp) for a in p.facts): ok = True
            ctx.ob('drop', f.short(), ok and p.how != 'throw', at(f), '' if ok and p.how != 'throw' else ('the failure escapes' if p.how == 'throw' else 'removes %s' % [show(a)[:60] for e in ops for a in e.a]))
    ctx.need('drop', 1)
    ctx.engine(E2)
