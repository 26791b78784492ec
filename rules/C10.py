from .common import *
G, TR, CN = 'dots::GuestTransceiver', 'dots::Transceiver', 'dots::Connection'

def check(ctx, tier):
    P = load(ctx, ['lib/src/GuestTransceiver.cpp', 'lib/src/Transceiver.cpp', 'lib/src/Connection.cpp'])
    ctx.rule('join', 'joining a group asks the host unless it was already asked on this connection, and is remembered exactly when it was asked')
    ctx.rule('leave', 'leaving a joined group tells the host and forgets the group')
    ctx.rule('subscribe', 'a subscription joins the group of its type, then registers its handler for exactly that type; sub-structure types are refused')
    ctx.rule('open', 'opening refuses to replace an open connection, forgets the groups of the previous one, and starts receiving on the new one with the handlers of this transceiver')
    ctx.rule('reopen', 'what was joined on one connection is not taken for joined on the next one')
    ctx.rule('preload', 'as soon as the host allows it, every preload type is described and every preload subscription is joined')
    ctx.rule('closed', 'a closed connection is dropped, and counts as not connected')
    ctx.rule('fails', 'without a connection a publication fails with an error')
    ctx.rule('deliver', 'every received event is dispatched once, unchanged')
    hc = one_field(P, G, '_ptr<dots::Connection>'); HC = T('fld', THIS, hc)
    pub = (G + '::publish', TR + '::publish')
    def eng(*also, **kw): return Engine(P, this_cls=G, rec_loop=True, opaque=foreign(P, G, TR, also=also), **kw)
    def is_hc(t): return mentions(t, lambda x: x is HC)
    def named(f): return [x['n'] for x in f.ps if 'string' in x['t']][0]
    def group_of(t, f): return mentions(t, lambda x: x.op in ('par', 'var') and x.a[-1] == named(f))
    def events(p, *names): return [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.name() in names]
    def members(p): 
        r = []
        for i, e in enumerate(p.tr):
            if e.k != 'call': continue
            for a in e.a:
                for x in walk(a):
                    if x.op in ('struct', 'upd') and struct_type(x) == 'DotsMember': r.append((i, e, x)); break
        return r
    sets = set()
    for name, want in (('joinGroup', 'join'), ('leaveGroup', 'leave')):
        rule = 'join' if want == 'join' else 'leave'
        for f in P.some(G + '::' + name):
            E = eng(*pub); ctx.fns([f])
            for p in E.run(f):
                m = members(p); has = [(a, v) for a, v in p.facts.items() if a.op == 'has' and under_this(a.a[0], a.a[0].a[1] if a.a[0].op == 'fld' else '')]
                for a, v in has: sets.add(a.a[0])
                known = has[0][1] if has else None
                if p.how != 'ret': continue
                need = known is not True if want == 'join' else known is not False
                if need: ctx.ob(rule, 'asked', len(m) == 1, at(f), '%s the host is not told exactly once; %s' % ('joining a group not yet joined:' if want == 'join' else 'leaving a joined group:', pathstr(p)))
                for i, e, x in m:
                    ctx.ob(rule, 'request', e.name() in ('publish', 'transmit') and mentions(sfield(x, 'event'), lambda y: y.op == 'enum' and y.a[0].endswith('::' + want)), e.loc(), show(x))
                    ctx.ob(rule, 'group name', group_of(sfield(x, 'groupName'), f), e.loc(), show(x))
                book = [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.o is not None and (e.o in sets or (is_fld(e.o, e.o.a[1] if e.o.op == 'fld' else '') and 'string' in str(fields_of(P, e.o))))]
                ins = [(i, e) for i, e in book if e.name() in ('insert', 'emplace', 'push_back', 'emplace_back')]; rem = [(i, e) for i, e in book if e.name() in ('erase', 'clear', 'remove')]
                if want == 'join':
                    for i, e in ins: ctx.ob('join', 'remembered only if asked', bool(m) or known is True, e.loc(), 'the group counts as joined although the host was not asked; ' + pathstr(p))
                    for i, e in ins:
                        # a failing request must not leave the group marked as joined
                        if m: ctx.ob('join', 'remembered after asking', m[0][0] < i, e.loc(), 'if asking fails, the group counts as joined; ' + pathstr(p))
                        ctx.ob('join', 'remembered name', e.a and group_of(e.a[0], f), e.loc(), show(e)[:200])
                    ctx.ob('join', 'not forgotten', not rem, at(f), pathstr(p))
                else:
                    if m and sets: ctx.ob('leave', 'forgotten', any(e.name() == 'erase' and e.a and group_of(e.a[0], f) for i, e in rem), at(f), 'the group still counts as joined after leaving it; ' + pathstr(p))
                    ctx.ob('leave', 'only this group', not ins and all(e.name() == 'erase' and e.a and group_of(e.a[0], f) for i, e in rem), at(f), pathstr(p))
    ctx.need('join', 3); ctx.need('leave', 3)
    # ---- subscriptions
    handlers = 0
    for f in P.some(TR + '::subscribe'):
        if f.b is None or not any('StructDescriptor' in x['t'] or 'string_view' in x['t'] for x in f.ps): continue
        E = eng(TR + '::joinGroup', G + '::joinGroup'); ctx.fns([f])
        desc = [x['n'] for x in f.ps if 'StructDescriptor' in x['t']]
        for p in E.run(f):
            add = events(p, 'addTransmissionHandler', 'addEventHandler'); jn = events(p, 'joinGroup')
            nested = events(p, 'subscribe')
            if p.how == 'throw': ctx.ob('subscribe', 'refused', not add or add[-1][1].caught, at(f), 'a refused subscription leaves a handler behind; ' + pathstr(p)); continue
            if nested and not add: continue
            ctx.ob('subscribe', 'registered', len(add) == 1, at(f), pathstr(p))
            for i, e in add:
                d = e.a[0]; handlers += 1
                if desc: ctx.ob('subscribe', 'type', mentions(d, lambda x: x.op in ('par', 'var') and x.a[-1] == desc[0]), e.loc(), 'the handler is registered for %s' % show(d))
                else:
                    src = [x for x in p.tr if x.ret is d]
                    ctx.ob('subscribe', 'type', bool(src) and any(mentions(y, lambda z: z.op in ('par', 'var') and z.a[-1] == f.ps[0]['n']) for y in src[0].a), e.loc(), 'the handler is registered for %s' % show(d))
                js = [j for j in jn if mentions(j[1].a[0], lambda x: x.op == 'pc' and x.a[0].endswith('::name') and x.a[1] is d)]
                ctx.ob('subscribe', 'joins', len(js) >= 1 and js[0][0] < i, e.loc(), 'the group of the type is not joined before the handler is registered; ' + pathstr(p))
                so = [v for a, v in p.facts.items() if a.op == 'pc' and a.a[0].endswith('::substructOnly') and mentions(a, lambda x: x is d)]
                ctx.ob('subscribe', 'usable type', so == [False], e.loc(), 'sub-structure types are not refused; ' + pathstr(p))
                hp = [x['n'] for x in f.ps if 'Handler' in x['t']]
                ctx.ob('subscribe', 'handler', not hp or mentions(e.a[1], lambda x: x.op in ('par', 'var') and x.a[-1] == hp[0]), e.loc(), show(e)[:200])
    ctx.need('subscribe', 8)
    # ---- open
    ops = [f for f in P.some(G + '::open') if f.b is not None]
    core = [f for f in ops if any('Channel' in x['t'] for x in f.ps) and any('DescriptorMap' in x['t'] for x in f.ps)]
    cleared = {s: set() for s in sets}
    for f in ops:
        E = eng(); ctx.fns([f])
        for p in E.run(f):
            if p.how != 'ret':
                ctx.ob('open', 'failing', True, at(f)); continue
            st = [(i, e) for i, e in enumerate(p.tr) if (e.k == 'set' and e.o is HC) or (e.k == 'call' and e.o is HC and e.name() == 'reset')]
            was = [v for a, v in p.facts.items() if a is HC or (a.op in ('==', '!=') and a.a[0] is HC)]
            ctx.ob('open', 'not replaced', was == [False], at(f), 'an open connection may be replaced; ' + pathstr(p))
            ctx.ob('open', 'one connection', len(st) == 1, at(f), pathstr(p))
            ar = events(p, 'asyncReceive')
            ctx.ob('open', 'receives', len(ar) == 1 and (not st or ar[0][0] > st[0][0] or True), at(f), 'no (single) receive is started on the new connection; ' + pathstr(p))
            if not st or not ar: continue
            mk = [e for e in p.tr if e.k == 'call' and e.q.startswith(('std::make_unique', 'std::make_shared')) and e.ret is not None and mentions(st[0][1].a[0], lambda x: x is e.ret)]
            args = mk[0].a if mk else [x for x in walk(st[0][1].a[0]) if x.op == 'new'][0].a[1:] if any(x.op == 'new' for x in walk(st[0][1].a[0])) else ()
            ctx.ob('open', 'guest role', len(args) >= 2 and args[1] is FALSE, st[0][1].loc(), 'the connection is not created in the guest role: %s' % [show(x) for x in args])
            sec = [x['n'] for x in f.ps if 'optional<std::' in x['t'] and 'string' in x['t']]
            if sec: ctx.ob('open', 'secret', len(args) > 2 and mentions(args[2], lambda x: x.op in ('par', 'var') and x.a[-1] == sec[0]), st[0][1].loc(), 'the secret is not handed to the connection')
            elif any('Endpoint' in x['t'] for x in f.ps):
                given = [v for a, v in p.facts.items() if a.op == 'empty' and 'userPassword' in show(a)]
                ctx.ob('open', 'secret of the endpoint', given == [True] or (given == [False] and len(args) > 2 and mentions(args[2], lambda x: x.op == 'pc' and x.a[0].endswith('::userPassword'))), st[0][1].loc(), 'the secret given in the endpoint is not handed to the connection: %s' % [show(x) for x in args])
            from .host import lam_targets
            cb = [lam_targets(P, a, (G, TR)) for a in ar[0][1].a]; cb = [c for c in cb if c]
            ctx.ob('open', 'callbacks', len(cb) == 2, ar[0][1].loc(), 'the connection is not given the receive and transition handlers of this transceiver')
            # preload types are taken over
            for x in [y['n'] for y in f.ps if 'DescriptorMap' in y['t']]:
                ctx.ob('open', 'preload types', any(e.k == 'set' and mentions(e.a[0], lambda t: t.op in ('par', 'var') and t.a[-1] == x) for e in p.tr), at(f), 'the preload types "%s" are dropped; %s' % (x, pathstr(p)))
            for s in sets: cleared[s].add(any((e.k == 'call' and e.o is s and e.name() in ('clear',)) or (e.k == 'set' and e.o is s) for e in p.tr[:ar[0][0]]))
    ctx.need('open', 10)
    # ---- transition handler
    ov = [f for f in P.fns.values() if f.clsq == G and f.b is not None and f.ov and len(f.ps) == 2 and 'Connection' in f.ps[0]['t'] and 'exception_ptr' in f.ps[1]['t']]
    if len(ov) != 1: raise AnalysisBroken('transition handler of the guest not identified')
    f = ov[0]; ctx.fns([f])
    con = f.ps[0]['n']
    def is_con(t): return mentions(t, lambda x: x.op in ('par', 'var') and x.a[-1] == con) or is_hc(t)
    closeclears = {s: set() for s in sets}
    seen = set()
    E = eng(G + '::joinGroup', *pub, may_throw=lambda e: e.name() in ('transmit', 'joinGroup', 'publish'))
    for p in E.run(f):
        st = {a.a[1].a[0].rsplit('::', 1)[-1]: v for a, v in p.facts.items() if a.op == '==' and a.a[1].op == 'enum' and 'DotsConnectionState' in a.a[1].a[0] and is_con(a.a[0])}
        for a, v in p.facts.items():
            if a.op == 'pc' and a.a[0] == CN + '::closed': st['closed'] = v
        nul = [e for e in p.tr if (e.k == 'set' and e.o is HC and e.a[0].op in ('null', 'none')) or (e.k == 'call' and e.o is HC and e.name() == 'reset') or (e.k == 'call' and e.name() == 'exchange')]
        isnull = any(a is HC and v is False for a, v in p.facts.items())
        thrown = any(e.k == 'catch' for e in p.tr)
        if p.how != 'ret': continue  # exceptions of foreign types end the program (noexcept)
        if st.get('closed') is True:
            ctx.ob('closed', 'dropped', bool(nul) or isnull, at(f), 'a closed connection is kept; ' + pathstr(p))
            for s in sets: closeclears[s].add(any(e.k == 'call' and e.o is s and e.name() == 'clear' for e in p.tr))
        elif thrown: ctx.ob('closed', 'dropped after failed preload', bool(nul) or any(e.name() == 'handleError' for e in p.tr if e.k == 'call'), at(f), 'the preload failed silently; ' + pathstr(p))
        else: ctx.ob('closed', 'kept', not nul, at(f), 'a connection that is not closed is dropped; ' + pathstr(p))
        if st.get('early_subscribe') is True and not thrown:
            tx = [e for e in p.tr if e.k == 'call' and e.name() == 'transmit' and is_con(e.o)]; jn = [e for e in p.tr if e.k == 'call' and e.name() == 'joinGroup']
            for a, v in p.facts.items():
                if a.op == 'empty' and v is False and a.a[0].op == 'fld':
                    fl = a.a[0]; seen.add(fl)
                    of = lambda t: mentions(t, lambda x: x.op in ('each', 'elem') and x.a[0] is fl)
                    srcs = {e.ret: e for e in p.tr if e.ret is not None}
                    ctx.ob('preload', fl.a[1] + ' described', any(any(of(x) or (x in srcs and srcs[x].o is not None and of(srcs[x].o)) for x in e.a) for e in tx), at(f), 'the types in %s are not described to the host; %s' % (show(fl), pathstr(p)))
                    if sub_field(P, fl): ctx.ob('preload', fl.a[1] + ' joined', any(of(e.a[0]) for e in jn), at(f), 'the groups of the types in %s are not joined; %s' % (show(fl), pathstr(p)))
            for e in p.tr:
                if e.k == 'loopexit': ctx.ob('preload', 'all', e.q == 'next', e.loc(), 'the iteration over the preload types ends early; ' + pathstr(p))
        elif st.get('early_subscribe') is not True: ctx.ob('preload', 'when allowed', not [e for e in p.tr if e.k == 'call' and e.name() in ('transmit', 'joinGroup')], at(f), 'preload requests are sent in another state; ' + pathstr(p))
    ctx.ob('preload', 'both kinds', len(seen) >= 2, at(f), 'only %s are handled when the host allows preloading' % [show(x) for x in seen])
    for s in sets: ctx.ob('reopen', s.a[1], cleared[s] == {True} or closeclears[s] == {True}, at(core[0]) if core else at(ops[0]), 'the groups remembered in %s are not forgotten when another connection is opened, so they are not joined on it' % show(s))
    # ---- connected
    for f in P.some(G + '::connected'):
        ctx.fns([f])
        for p in eng().run(f):
            nn = [v for a, v in p.facts.items() if a is HC]
            v = p.val
            if v is FALSE: ctx.ob('closed', 'connected()', True, at(f)); continue
            if v is TRUE: ok = nn == [True] and any((a.op == 'pc' and a.a[0] == CN + '::connected' and b) or (a.op == '==' and a.a[1].op == 'enum' and a.a[1].a[0].endswith('::connected') and b) for a, b in p.facts.items())
            else: ok = nn == [True] and ((v.op == 'pc' and v.a[0] == CN + '::connected') or (v.op == '==' and v.a[1].op == 'enum' and v.a[1].a[0].endswith('::connected')))
            ctx.ob('closed', 'connected()', ok, at(f), 'reports %s; %s' % (show(v), pathstr(p)))
    # ---- publish without connection
    for f in P.some(G + '::publish'):
        ctx.fns([f])
        for p in eng().run(f):
            nn = [v for a, v in p.facts.items() if a is HC]
            tx = [e for e in p.tr if e.k == 'call' and e.name() == 'transmit']
            if p.how == 'ret': ctx.ob('fails', 'publish', nn == [True] and len(tx) == 1 and is_hc(tx[0].o), at(f), 'a publication is lost without an error; ' + pathstr(p))
            else: ctx.ob('fails', 'publish error', not tx or nn == [True], at(f), pathstr(p))
    ctx.need('fails', 3)
    # ---- received events
    rx = [f for f in P.fns.values() if f.clsq == G and f.b is not None and f.rt == 'bool' and len(f.ps) == 2 and 'Connection' in f.ps[0]['t'] and 'Transmission' in f.ps[1]['t']]
    for f in rx:
        ctx.fns([f])
        for p in eng().run(f):
            d = [e for e in p.tr if e.k == 'call' and e.q == 'dots::Dispatcher::dispatch']
            if p.how == 'ret': ctx.ob('deliver', f.q, len(d) == 1 and d[0].a[0].op in ('par', 'var') and d[0].a[0].a[-1] == f.ps[1]['n'], at(f), pathstr(p))
    ctx.need('deliver', 1)

def fields_of(P, t):
    for r in P.records_q.get(G, []):
        for x in r['fields']:
            if x['n'] == (t.a[1] if t.op == 'fld' else None): return x['t']
    return ''
def sub_field(P, fl):
    """is this the map of types to subscribe to? (the one whose initialisation parameter is the second map of open)"""
    core = [f for f in P.some(G + '::open') if f.b is not None and len([x for x in f.ps if 'DescriptorMap' in x['t']]) == 2 and any('channel' in x['n'].lower() or 'Channel' in x['t'] for x in f.ps)]
    for f in core:
        second = [x['n'] for x in f.ps if 'DescriptorMap' in x['t']][1]
        for p in Engine(P, this_cls=G, opaque=foreign(P, G, TR)).run(f):
            for e in p.tr:
                if e.k == 'set' and e.o is fl and mentions(e.a[0], lambda t: t.op in ('par', 'var') and t.a[-1] == second): return True
    return False
