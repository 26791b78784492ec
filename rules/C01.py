from .connection import *

def check(ctx, tier):
    c = Conn(ctx); E = c.E
    ctx.rule('gate', 'on every path, peer data reaches the owner only under state==connected or state==early_subscribe')
    ctx.rule('system', 'handshake messages never reach the owner as data')
    ctx.rule('refuse', 'a data message in any other state ends in an exception (closing the connection) or is ignored when closed')
    ctx.rule('deliver', 'a data message in a permitted state reaches the owner exactly once and its verdict is returned')
    ctx.rule('expected', 'a handshake message is handed to the stage handler only after type and required properties were checked against the expectation')
    ctx.rule('error-msg', 'an error message is accepted in every open state')
    ctx.rule('who-invokes', 'the owner callback is invoked from the receive entry only')
    ctx.rule('rearm', 'every handshake handler that returns replaces the expectation, and never with its own message in the same stage')
    ctx.rule('says-yes', 'a handshake message advances the handshake only if the peer answers yes in it')
    ctx.rule('closed-forgets', 'closing removes the owner callback, so nothing can be delivered later')
    f, ps = c.fpaths(c.rx)
    par = T('par', f.ps[0]['n'])
    nsys = 0
    for p in ps:
        inv = c.recv_invokes(p)
        for i, e in inv:
            st_ok = e.facts.get(c.is_state('connected')) is True or e.facts.get(c.is_state('early_subscribe')) is True
            ctx.ob('gate', 'receive entry -> owner', st_ok, e.loc(), pathstr(p))
            neg = [a for a, v in e.facts.items() if a.op == '==' and a.a[0].op == 'dyntype' and v is False]
            nm = set(a.a[1].a[0] for a in neg)
            ctx.ob('system', 'receive entry -> owner', set(HANDSHAKE) <= nm, e.loc(), 'not excluded: %s; %s' % (sorted(set(HANDSHAKE) - nm), pathstr(p)))
        ty = [a.a[1].a[0] for a, v in p.facts.items() if a.op == '==' and a.a[0].op == 'dyntype' and v is True]
        closed = p.facts.get(c.is_state('closed'))
        if closed is True:
            ctx.ob('refuse', 'closed', p.how == 'ret' and p.val is FALSE and not inv and not c.sends(p) and not [e for e in p.tr if e.k in ('invoke', 'set')], at(f), pathstr(p))
            continue
        if ty:
            nsys += 1
            # stage handler
            h = [(i, e) for i, e in enumerate(p.tr) if e.k == 'invoke' and mentions(e.o, lambda x: under_this(x, c.expect))]
            if ty[0].endswith('DotsMsgError'):
                ctx.ob('error-msg', 'DotsMsgError', bool(c.state_sets(p)) and c.state_sets(p)[-1][2] == 'closed' or p.how == 'throw', at(f), 'an error message of the peer does not close the connection; ' + pathstr(p))
                continue
            if not h:
                ctx.ob('expected', ty[0], p.how == 'throw', at(f), 'message silently dropped; ' + pathstr(p)); continue
            i, e = h[0]
            before = p.tr[:i]
            def uses(ev, k): return any(is_fld(x, '<%d>' % k) and under_this(x.a[0], c.expect) for a in ev.a for x in walk(a))
            tchk = any(ev.k in ('call', 'pure') and uses(ev, 0) and ev.name() in ('_assertIs',) for ev in before) or any(v is True and a.op == '==' and any(is_fld(x, '<0>') for x in walk(a)) for a, v in e.facts.items())
            pchk = any(ev.k in ('call', 'pure') and uses(ev, 1) and ev.name().startswith(('_assertHasProperties', '_assertValid')) for ev in before) or any((v is True and a.op == 'pc' or a.op in ('==', '<')) and any(is_fld(x, '<1>') and under_this(x.a[0], c.expect) for x in walk(a)) for a, v in e.facts.items())
            ctx.ob('expected', ty[0], tchk and pchk and len(h) == 1, e.loc(), 'type checked: %s, required properties checked: %s; %s' % (tchk, pchk, pathstr(p)))
        elif not inv:
            # data message not delivered: only in a state that does not permit it
            neg = p.facts.get(c.is_state('connected')) is False and p.facts.get(c.is_state('early_subscribe')) is False
            ctx.ob('refuse', 'not permitted', p.how == 'throw' and (neg or True) , at(f), 'data message neither delivered nor refused; ' + pathstr(p))
            if p.how == 'throw': ctx.ob('deliver', 'no refusal in permitted states', neg, at(f), pathstr(p))
        else:
            ctx.ob('deliver', 'once and verdict returned', len(inv) == 1 and p.how == 'ret' and p.val is inv[0][1].ret, at(f), pathstr(p))
            ctx.ob('deliver', 'keys present', any(e.name() == '_assertHasProperties' for e in p.tr) or any('key' in show(a).lower() for a in p.facts), at(f), 'key properties of received data are not asserted; ' + pathstr(p))
    ctx.need('gate', 3); ctx.need('expected', 3); ctx.need('refuse', 2)
    # the owner's receive callback is invoked by the receive entry only; closing forgets it
    ncl = 0
    loc = T('fld', THIS, c.recv)
    for g, gps in c.roots():
        ctx.fns([g])
        for p in gps:
            if g is not f:
                ri = c.recv_invokes(p)
                ctx.ob('who-invokes', g.q, not ri, ri[0][1].loc() if ri else at(g), 'the owner callback is invoked outside the receive entry; ' + pathstr(p))
            for i, e, stn in c.state_sets(p):
                if stn != 'closed': continue
                ncl += 1
                sets = [x for x in p.tr if x.k == 'set' and x.o is loc]
                ctx.ob('closed-forgets', g.q.rsplit('::', 1)[-1], bool(sets) and sets[-1].a[0] in (NULL,), e.loc(), 'the connection is closed but still holds the callback that delivers data; ' + pathstr(p))
    ctx.need('who-invokes', 5); ctx.need('closed-forgets', 2)
    # handshake automaton
    for cur, msg, props, h, hps, src in c.automaton(ctx):
        for p in hps:
            if p.how != 'ret': continue
            ex = c.expectation(p)
            if msg.endswith('DotsMsgError'): continue
            ctx.ob('rearm', '%s in %s' % (h.q.rsplit('::', 1)[-1], cur), ex is not None and not (ex[2] == h.u and h.q.rsplit('::', 1)[-1] != 'handlePeerError' and (c.state_sets(p)[-1][2] if c.state_sets(p) else cur) == cur), at(h), 'handler returns without replacing the expected message; ' + pathstr(p))
            # a flag the stage requires says what the peer answers: a message that says no does not advance the handshake
            ss = c.state_sets(p)
            flag = [n for n in ('preloadClientFinished', 'accepted') if n in props]
            if flag and ss and ss[-1][2] in ('connected', 'early_subscribe'):
                n = flag[0]
                yes = any((a.op == 'peq' and is_fld(a.a[0], n) and ((a.a[1] is FALSE and v is False) or (a.a[1] is TRUE and v is True))) or (mentions(a, lambda x: is_fld(x, n)) and a.op not in ('peq', 'valid') and v is True) for a, v in p.facts.items())
                ctx.ob('says-yes', '%s in %s' % (h.q.rsplit('::', 1)[-1], cur), yes, at(h), 'the handshake advances whatever the peer answers in %s; %s' % (n, pathstr(p)))
    ctx.need('rearm', 6); ctx.need('says-yes', 2)
    ctx.engine(E)
