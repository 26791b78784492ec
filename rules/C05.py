from .connection import *

def guarded(ev, t):
    """property t is known to be valid at event ev"""
    f = ev.facts
    if f.get(t) is True: return True
    return any(v is True and a.op == 'peq' and a.a[0] is t for a, v in f.items())

def check(ctx, tier):
    c = Conn(ctx); E = c.E
    ctx.rule('fields', 'every field of a handshake message that its handler reads as a value was required before the handler runs, or is tested for presence first')
    ctx.rule('accepted', 'a connection response advances the guest only if its accepted field is true; a refusal ends in an exception')
    ctx.rule('peer-error', 'an error message of the peer closes the connection on every path')
    ctx.rule('peer-reason', 'the owner is told the peer\'s error text as cause, and no cause for a graceful close (error code 0)')
    ctx.rule('any-stage', 'the error message is handled before any stage expectation is consulted')
    ctx.rule('violation', 'a handshake message that is not the expected one or lacks required fields is an exception')
    ctx.rule('channel', 'an exception while processing a received message reaches the connection\'s error entry')
    auto = c.automaton(ctx)
    n_acc = 0
    for cur, msg, props, h, ps, src in auto:
        ctx.fns([h])
        par = T('par', h.ps[0]['n'])
        for p in ps:
            seen = set()
            for e in p.tr:
                if e.k != 'pderef' or e.o.op != 'fld' or e.o.a[0] is not par: continue
                ok = e.o.a[1] in props or guarded(e, e.o)
                ctx.ob('fields', '%s.%s in %s (%s)' % (msg.rsplit('::', 1)[-1], e.o.a[1], h.q.rsplit('::', 1)[-1], cur), ok, e.loc(), 'field is read although it is neither required (%s) nor tested; %s' % (sorted(props), pathstr(p)))
            if msg.endswith('DotsMsgConnectResponse') and cur == 'connecting':
                acc = T('fld', par, 'accepted')
                ss = c.state_sets(p)
                adv = [e for i, e, n in ss if n != 'closed']
                conn = [e for i, e, v in c.sends(p) if v is not None and struct_type(v) == 'DotsMsgConnect']
                for e in adv + conn:
                    f = e.facts
                    yes = f.get(T('peq', acc, TRUE)) is True or f.get(T('deref', acc)) is True or (f.get(T('peq', acc, FALSE)) is False and ('accepted' in props or f.get(acc) is True))
                    n_acc += 1
                    ctx.ob('accepted', '%s->%s' % (h.q.rsplit('::', 1)[-1], e.k), yes, e.loc(), 'the guest proceeds without the host having accepted; ' + pathstr(p))
                if not adv: ctx.ob('accepted', 'refusal ends', p.how == 'throw' or (ss and ss[-1][2] == 'closed'), at(h), 'a refused guest neither advances nor closes; ' + pathstr(p))
    ctx.need('fields', 4); ctx.need('accepted', 2)
    f, ps = c.fpaths(c.rx)
    ctx.fns([f])
    for p in ps:
        closed = p.facts.get(c.is_state('closed'))
        pol = [e for e in p.tr]
        if not p.tr and p.how == 'ret' : continue
        ty = [a.a[1].a[0].rsplit('::', 1)[-1] for a, v in p.facts.items() if a.op == '==' and a.a[0].op == 'dyntype' and v is True]
        if not ty or closed is True: continue
        if ty[0] == 'DotsMsgError':
            ss = c.state_sets(p)
            ctx.ob('peer-error', 'closes', bool(ss) and ss[-1][2] == 'closed', at(f), 'the error message does not close the connection; ' + pathstr(p))
            used = [e for e in p.tr if e.k == 'invoke' and mentions(e.o, lambda x: under_this(x, c.expect))] + [a for a in p.facts if mentions(a, lambda x: under_this(x, c.expect))]
            ctx.ob('any-stage', 'DotsMsgError', not used, at(f), pathstr(p))
            code0 = [v for a, v in p.facts.items() if a.op == 'peq' and is_fld(a.a[0], 'errorCode') and a.a[1] is T('int', '0')]
            text = [v for a, v in p.facts.items() if is_fld(a, 'errorText')]
            for i, e in c.trans_invokes(p):
                cause = e.a[1] if len(e.a) > 1 else None
                if code0 and code0[0]: ctx.ob('peer-reason', 'graceful', cause is NULL, e.loc(), pathstr(p))
                elif code0:
                    ok = cause is not None and cause.op not in ('null', 'none') 
                    if ok and text and text[0]: ok = mentions(cause, lambda x: x.op == 'deref' and is_fld(x.a[0], 'errorText'))
                    ctx.ob('peer-reason', 'error', ok, e.loc(), 'the cause given to the owner does not carry the peer\'s reason: %s; %s' % (show(cause), pathstr(p)))
                else: ctx.ob('peer-reason', 'error code examined', False, e.loc(), pathstr(p))
            for e in p.tr:
                if e.k == 'pderef' and e.o.op == 'fld' and e.o.a[1] in ('errorCode', 'errorText') and not under_this(e.o, e.o.a[1]):
                    ctx.ob('fields', 'DotsMsgError.%s' % e.o.a[1], guarded(e, e.o), e.loc(), 'field is read without being tested; ' + pathstr(p))
    ctx.need('peer-error', 2); ctx.need('peer-reason', 2)
    # the checks made before a stage handler runs raise on mismatch (their definitions throw)
    fs = load(ctx, ['lib/src/Connection.cpp', 'lib/src/type/Struct.cpp', 'lib/src/io/Channel.cpp'])
    Es = Engine(fs, inline=lambda g: g.q.startswith('dots::type::Struct::_assert'))
    for q, n in (('dots::type::Struct::_assertIs', 1), ('dots::type::Struct::_assertHasProperties', 1)):
        for g in [x for x in fs.find(q) if x.b is not None and x.ps]:
            ps = Es.run(g); ctx.fns([g])
            thr = [p for p in ps if p.how == 'throw']
            ret = [p for p in ps if p.how == 'ret']
            ctx.ob('violation', g.q, bool(thr) and bool(ret) and all(any(a.op in ('pc', '==', '<') and (v or a.op != 'pc') for a, v in p.facts.items()) for p in ret), at(g), 'the check never fails or passes without a test: %s' % [p.how + ':' + p.describe() for p in ps][:4])
    ctx.need('violation', 2)
    rh = one_field(fs, 'dots::io::Channel', 'Handler<bool (')
    Ec = Engine(fs, may_throw=lambda e: e.k == 'invoke' and mentions(e.o, lambda x: under_this(x, rh)))
    for g in fs.some('dots::io::Channel::processReceive'):
        for p in Ec.run(g):
            ctx.fns([g])
            rxi = [e for e in p.tr if e.k == 'invoke']
            if any(e.k == 'catch' for e in p.tr):
                ctx.ob('channel', g.q, p.how == 'ret' and len(rxi) >= 2, at(g), 'an exception of the receive handler does not reach the error handler; ' + pathstr(p))
            elif p.how == 'throw' and len(rxi) == 1: ctx.ob('channel', g.q, False, at(g), 'an exception of the receive handler escapes; ' + pathstr(p))
    ctx.need('channel', 1)
    ctx.engine(E)
