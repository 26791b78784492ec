from .host import *

CONTROL = {'DotsMember', 'DotsDescriptorRequest', 'DotsEcho'}
def control(p):
    """the path handles a request to the host itself rather than an event"""
    t = [a.a[1].a[0].rsplit('::', 1)[-1] for a, v in p.facts.items() if v is True and a.op == '==' and a.a[0].op == 'dyntype' and a.a[1].op == 'enum']
    return bool(t) and t[0] in CONTROL
def in_group_loop(h, p, i):
    """index i lies inside an iteration over members of a group (the iteration ends later)"""
    return any(e.k == 'loopexit' and mentions(e.o, h.is_groups) for e in p.tr[i + 1:]) and not False

def check(ctx, tier):
    h = Host(ctx); P = h.P
    ctx.rule('both', 'every event the host accepts or publishes is given to the host\'s own dispatcher exactly once and forwarded, on every path that returns')
    ctx.rule('same', 'the forwarded event is the dispatched one')
    ctx.rule('members', 'events are forwarded to the members of the group named like the event\'s type, and to nobody else')
    ctx.rule('all', 'a member is passed over only because its connection is closed, and the iteration over the members is never cut short')
    ctx.rule('failure', 'whatever error sending to a member raises neither escapes nor stops the iteration; the failed connection is told about that error after the iteration')
    ctx.rule('alive', 'a failed connection is kept alive until its failure was handled')
    E = h.engine(rec_loop=True)
    T_ = h.engine(rec_loop=True, may_throw=lambda e: e.k == 'call' and e.q == CONN + '::transmit')
    pubs = [f for f in P.find(H + '::publish') if f.b is not None]
    roots = pubs + [h.rx]
    for f in roots:
        ctx.fns([f]); fn = f.q.rsplit('::', 1)[-1]
        for p in h.paths(f, E):
            if p.how != 'ret': continue
            ds = h.dispatches(p); gt = h.group_tx(p)
            if f is h.rx and control(p):
                ctx.ob('both', fn + ' request', not ds and not gt, at(f), 'a request to the host is treated as an event; ' + pathstr(p)); continue
            ctx.ob('both', fn + ' dispatch', len(ds) == 1, at(f), 'the event is dispatched %d times; %s' % (len(ds), pathstr(p)))
            if len(ds) != 1: continue
            di, d = ds[0]
            ev = d.a[0]
            if f is h.rx:
                par = [T('par', x['n']) for x in f.ps if 'Transmission' in x['t']]
                ctx.ob('same', fn + ' dispatched event', bool(par) and mentions(ev, lambda x: x is par[0]) and ev.op != 'upd', d.loc(), 'the dispatched event is not the received one: %s' % show(ev)[:200])
            else:
                par = [T('par', x['n']) for x in f.ps if 'Struct' in x['t']]
                ctx.ob('same', fn + ' dispatched event', bool(par) and mentions(ev, lambda x: x is par[0]), d.loc(), 'the dispatched event is not the published one: %s' % show(ev)[:200])
            for i, e in gt:
                ok = (len(e.a) == 1 and e.a[0] is ev) or (len(e.a) >= 1 and all(mentions(a, lambda x: x is ev) and a.op != 'upd' for a in e.a)) or (header_of(ev) is not None and len(e.a) >= 2 and e.a[0] is header_of(ev))
                ctx.ob('same', fn + ' forwarded event', ok, e.loc(), 'forwarded: %s, dispatched: %s' % (show(e.a[0])[:200], show(ev)[:200]))
            for i, e in h.conn_tx(p):
                if (i, e) not in gt:
                    ctx.ob('members', fn + ' receiver', False, e.loc(), 'sent to %s, which is not a member of a group; %s' % (show(e.o)[:200], pathstr(p)))
            coll = [x for i, e in gt for x in walk(e.o) if x.op in ('elem', 'each') and mentions(x.a[0], h.is_groups)]
            keys = [a.a[0] for a, v in p.facts.items() if a.op == 'empty' and mentions(a.a[0], h.is_groups)] + [x.a[0] for x in coll]
            for k in keys:
                tn = [x for x in walk(k) if is_fld(x, 'typeName')] or [x for x in walk(k) if x.op == 'pc' and x.a[0].endswith('Descriptor::name')]
                ctx.ob('members', fn + ' group', bool(tn) and (mentions(k, lambda x: x is ev) or mentions(k, lambda x: x.op == 'par') and not any(x.op == 'str' for x in walk(k))) and mentions(k, h.is_groups), d.loc(), 'the group is not the one of the event\'s type: %s' % show(k)[:200])
            none = any(v is True and a.op == 'empty' and mentions(a.a[0], h.is_groups) for a, v in p.facts.items()) or any(a.op in ('==', 'has') and mentions(a, h.is_groups) and not mentions(a, lambda x: x.op in ('elem', 'each')) and ((a.op == '==') == v) for a, v in p.facts.items())
            if not gt and not none:
                closed = any((a.op == '==' and v is True and a.a[1].op == 'enum' and a.a[1].a[0].endswith('::closed') or a.op == 'pc' and a.a[0].endswith('::closed') and v is True) and mentions(a, h.is_groups) for a, v in p.facts.items())
                ctx.ob('all', fn + ' member passed over', closed, at(f), 'a member whose connection is open does not get the event; ' + pathstr(p))
            elif gt: ctx.ob('all', fn + ' member', len(gt) == 1, gt[0][1].loc(), 'the event is sent %d times to a member; %s' % (len(gt), pathstr(p)))
            for e in p.tr:
                if e.k == 'loopexit' and mentions(e.o, h.is_groups):
                    ctx.ob('all', fn + ' iteration', e.q == 'next', e.loc(), 'the iteration over the members is ended early (%s); %s' % (e.q, pathstr(p)))
        # failures
        for p in h.paths(f, T_):
            th = [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.q == CONN + '::transmit' and mentions(e.o, h.is_groups)]
            failed = [i for i, e in enumerate(p.tr) if e.k == 'catch']
            if p.how == 'throw' and th and not (f is h.rx and control(p)) and p.val is not None and 'Connection::transmit' in show(p.val):
                ctx.ob('failure', fn + ' contained', False, th[-1][1].loc(), 'an error while sending to one member prevents the delivery to the others; ' + pathstr(p))
            if not failed or not th: continue
            i = failed[0]; m = th[0][1].o
            he = [(j, e) for j, e in enumerate(p.tr) if e.k == 'call' and e.q.startswith(CONN + '::') and e.name() in ('handleError',) and j > i]
            ctx.ob('failure', fn + ' handled', len(he) == 1, at(f), 'the failed connection is told %d times; %s' % (len(he), pathstr(p)))
            for e in p.tr[i:]:
                if e.k == 'loopexit' and mentions(e.o, h.is_groups) and not mentions(e.o, lambda x: x.op == 'mut'):
                    ctx.ob('failure', fn + ' goes on', e.q == 'next', e.loc(), 'the iteration over the members is ended by a failure; ' + pathstr(p)); break
            for j, e in he:
                le = [k for k, x in enumerate(p.tr) if x.k == 'loopexit' and mentions(x.o, h.is_groups) and not mentions(x.o, lambda y: y.op == 'mut')]
                ctx.ob('failure', fn + ' after the iteration', bool(le) and le[0] < j, e.loc(), 'handling a failure while iterating over the members changes the group that is iterated; ' + pathstr(p))
                ctx.ob('failure', fn + ' cause', any(x.op == 'eptr' for a in e.a for x in walk(a)) or any(mentions(a, lambda x: x.op == 'mut' and any(y.op == 'eptr' for z in x.a[2:] for y in walk(z))) for a in e.a), e.loc(), 'the failed connection is not told the error; ' + pathstr(p))
                ty = [x.a[0] for x in walk(e.o) if x.op == 'new' and isinstance(x.a[0], str)]
                ctx.ob('alive', fn, any('shared_ptr<dots::Connection>' in t for t in ty) or any(x.op == 'ret' and 'lock' in str(x.a[0]) for x in walk(e.o)), e.loc(), 'failed connections are remembered without keeping them alive (%s)' % ty)
    ctx.need('both', 6); ctx.need('all', 4); ctx.need('failure', 4); ctx.need('alive', 2)
    ctx.engine(E)
