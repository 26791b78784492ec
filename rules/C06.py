from .connection import *
from .host import Host, header_of, H

def isnow(t): return t is not None and t.op == 'some' and t.a[0].op == 'ret' and t.a[0].a[0].endswith('::Now')

def check(ctx, tier):
    c = Conn(ctx, ['lib/src/HostTransceiver.cpp'])
    ctx.rule('stamp', 'before a host hands a message of a guest to its owner it overwrites the sender with the identity of the connection, on every path')
    ctx.rule('time', 'before a host hands a message of a guest to its owner it sets the current server time, and the send time when the guest gave none')
    ctx.rule('own', 'whether an event is the receiver\'s own is decided by comparing its sender with the own identity; an event without sender counts as the peer\'s')
    ctx.rule('same', 'the message handed over is the one whose header was stamped')
    ctx.rule('identity', 'identities of guest connections come from a counter that only grows and starts after the host\'s identity; an identity never changes after it was assigned, except that a guest adopts the one its host assigned')
    ctx.rule('assigned', 'a host tells a guest the identity it uses for stamping')
    ctx.rule('host-own', 'events the host publishes carry the host\'s identity, both current times, and count as own')
    f, ps = c.fpaths(c.rx)
    ctx.fns([f])
    par = T('par', f.ps[0]['n'])
    selfid = peerid = None
    # identities: the fields initialised from the host flag
    for g in c.P.fns.values():
        if g.clsq == 'dots::Connection' and g.kind == 'ctor' and g.b is not None and not g.imp:
            for p in c.E.run(g):
                ini = {e.o.a[1]: e.a[0] for e in p.tr if e.k == 'init' and is_fld(e.o, e.o.a[1])}
                flag = [v for a, v in p.facts.items() if a.op == 'par']
                ids = {n: v for n, v in ini.items() if v.op == 'int' or (v.op == 'glob' and 'Guest' in v.a[0]) or (v.op == 'glob' and v.a[0].startswith('dots::Connection::')) }
                if len(flag) != 1: continue
                if flag[0]:
                    for n, v in ini.items():
                        if v is T('int', '1'): selfid = n
                        if v.op in ('glob', '+', 'next'): peerid = n; src = v
                    sets = [e for e in p.tr if e.k == 'set' and e.o.op == 'glob']
                    ctx.ob('identity', 'fresh', peerid is not None and len(sets) == 1 and sets[0].a[0].op in ('+', 'next') and mentions(sets[0].a[0], lambda x: x is sets[0].o), at(g), 'the identity of a guest connection is not taken from a growing counter: %s' % pathstr(p))
                else:
                    ctx.ob('identity', 'host peer', ini.get(peerid) is T('int', '1') if peerid else True, at(g), 'a guest does not regard its peer as the host: %s' % pathstr(p))
    if not selfid or not peerid: raise AnalysisBroken('cannot identify the identity fields of a connection (%s, %s)' % (selfid, peerid))
    SELF = T('fld', THIS, selfid); PEER = T('fld', THIS, peerid)
    cnt = None
    for g in c.P.fns.values():
        if g.clsq != 'dots::Connection' or g.b is None: continue
        for n in list(nodes(g.b)) + [m for i in g.inits if i.get('e') for m in nodes(i['e'])]:
            tgt = n.get('l1') if n['k'] == 'asg' else n.get('e') if n['k'] == 'un' and n.get('op') in ('++', '--') else None
            if not tgt: continue
            if tgt.get('k') == 'mem' and tgt.get('n') == peerid: ctx.ob('identity', 'write of %s' % peerid, False, at(g, n), 'the identity of the peer is changed after construction')
            if n['k'] == 'un' and n.get('op') == '--' and tgt.get('q', '').startswith('dots::Connection::'): ctx.ob('identity', 'counter', False, at(g, n), 'the identity counter decreases')
    ishost = T('==', SELF, T('int', '1'))
    n = 0
    for p in ps:
        for i, e in c.recv_invokes(p):
            n += 1
            tx = e.a[1] if len(e.a) > 1 else None
            hdr = {}
            root = None
            for x in p.tr[:i]:
                if x.k == 'set' and x.o.op == 'fld' and x.o.a[1] in ('sender', 'serverSentTime', 'sentTime', 'isFromMyself', 'typeName', 'attributes', 'removeObj', 'fromCache') :
                    hdr[x.o.a[1]] = x.a[0]; root = x.o.a[0]
            host = p.facts.get(ishost)
            if root is not None:
                ctx.ob('same', 'header', (mentions(root, lambda x: x is par) or any(x.k == 'call' and x.name() == 'header' and x.o is par for x in p.tr[:i])) and tx is not None and mentions(tx, lambda x: x is par), e.loc(), 'the stamped header is not that of the message handed over; ' + pathstr(p))
            for k in ('typeName', 'attributes', 'removeObj', 'fromCache'):
                ctx.ob('same', 'header.' + k, k not in hdr, e.loc(), 'the meaning of the event is changed; ' + pathstr(p)) if k in hdr else None
            if host is True:
                ctx.ob('stamp', 'host', hdr.get('sender') is T('some', PEER), e.loc(), 'the sender of a guest message is not overwritten with the identity of its connection (%s); %s' % (show(hdr.get('sender')) if hdr.get('sender') is not None else 'not set', pathstr(p)))
                ctx.ob('time', 'server time', isnow(hdr.get('serverSentTime')), e.loc(), pathstr(p))
                noT = [v for a, v in p.facts.items() if is_fld(a, 'sentTime')]
                if 'sentTime' in hdr: ctx.ob('time', 'send time', isnow(hdr['sentTime']) and False in noT, e.loc(), 'a send time given by the guest is overwritten or not replaced by the current time; ' + pathstr(p))
                else: ctx.ob('time', 'send time', True in noT, e.loc(), 'a missing send time is not filled in; ' + pathstr(p))
                v = hdr.get('isFromMyself')
                ok = v is not None and v.op == 'some' and (v.a[0] is FALSE or (v.a[0].op == '==' and set(v.a[0].a) == {SELF, PEER}))
                ctx.ob('own', 'host', ok, e.loc(), pathstr(p))
            elif host is False:
                v = hdr.get('isFromMyself')
                known = [(a, val) for a, val in p.facts.items() if is_fld(a, 'sender')]
                if 'sender' in hdr:
                    ctx.ob('own', 'guest, no sender', hdr['sender'] is T('some', PEER) and any(val is False for a, val in known), e.loc(), 'the sender reported by the host is replaced; ' + pathstr(p))
                    ctx.ob('own', 'guest, no sender: foreign', v is T('some', FALSE) or (v is not None and mentions(v, lambda x: x is PEER) and mentions(v, lambda x: x is SELF)), e.loc(), pathstr(p))
                else:
                    ok = v is not None and v.op == 'some' and v.a[0].op in ('peq', '==') and mentions(v.a[0], lambda x: is_fld(x, 'sender')) and mentions(v.a[0], lambda x: x is SELF)
                    ctx.ob('own', 'guest', ok, e.loc(), 'the event is not recognised as own by comparing its sender with the own identity: %s; %s' % (show(v) if v is not None else 'not set', pathstr(p)))
            else: ctx.ob('stamp', 'role', False, e.loc(), 'a message is handed over without regard to the role of the connection; ' + pathstr(p))
    ctx.need('stamp', 2); ctx.need('own', 4)
    for cur, msg, props, h, pps, src in c.automaton(ctx):
        for p in pps:
            for e in p.tr:
                if e.k == 'set' and e.o is SELF:
                    ok = msg.endswith('DotsMsgConnectResponse') and e.a[0].op == 'deref' and is_fld(e.a[0].a[0], 'clientId')
                    ctx.ob('identity', 'adopted', ok, e.loc(), 'the own identity is set to %s' % show(e.a[0]))
            for i, e, v in c.sends(p):
                if v is not None and struct_type(v) == 'DotsMsgConnectResponse':
                    acc = sfield(v, 'accepted'); cid = sfield(v, 'clientId')
                    if acc is T('some', TRUE): ctx.ob('assigned', h.q.rsplit('::', 1)[-1], cid is T('some', PEER), e.loc(), 'the guest is told the identity %s' % show(cid))
                    elif cid is not None and cid is not NONE: ctx.ob('assigned', h.q.rsplit('::', 1)[-1], cid is T('some', PEER), e.loc(), 'the guest is told the identity %s' % show(cid))
    ctx.need('assigned', 1)
    # events published by the host itself
    hc = Host(ctx)
    for f in [x for x in hc.P.find(H + '::publish') if x.b is not None]:
        ctx.fns([f])
        for p in hc.paths(f):
            for i, e in hc.dispatches(p) + hc.group_tx(p):
                hd = header_of(e.a[0]) if e.a else None
                if hd is None and len(e.a) == 2: hd = e.a[0]
                if hd is None or struct_type(hd) != 'DotsHeader':
                    ctx.ob('host-own', e.name(), False, e.loc(), 'cannot see the header of the event; ' + pathstr(p)); continue
                ctx.ob('host-own', e.name() + ' sender', sfield(hd, 'sender') is T('some', T('int', '1')), e.loc(), 'sender is %s' % show(sfield(hd, 'sender')))
                ctx.ob('host-own', e.name() + ' times', isnow(sfield(hd, 'sentTime')) and isnow(sfield(hd, 'serverSentTime')), e.loc(), 'times are %s, %s' % (show(sfield(hd, 'sentTime')), show(sfield(hd, 'serverSentTime'))))
                if e.q.endswith('::dispatch'): ctx.ob('host-own', 'own', sfield(hd, 'isFromMyself') is T('some', TRUE), e.loc(), 'isFromMyself is %s' % show(sfield(hd, 'isFromMyself')))
    ctx.need('host-own', 4)
    # what is sent on behalf of others from the cache
    ctx.engine(c.E); ctx.engine(hc.E)
