from .host import *

MUT = ('emplace', 'insert', 'erase', 'clear', 'extract', 'merge', 'swap', 'try_emplace', 'insert_or_assign')
def ev_of(p, kind):
    return any(v is True and a.op == 'peq' and is_fld(a.a[0], 'event') and a.a[1].op == 'enum' and a.a[1].a[0].endswith('::' + kind) for a, v in p.facts.items())
def ismember(p): return any(v is True and a.op == '==' and a.a[0].op == 'dyntype' and a.a[1].op == 'enum' and a.a[1].a[0].endswith('::DotsMember') for a, v in p.facts.items())
def group_mut(h, p):
    return [(i, e) for i, e in enumerate(p.tr) if e.k in ('call', 'set') and e.o is not None and mentions(e.o, h.is_groups) and (e.k == 'set' or e.name() in MUT)]

def check(ctx, tier):
    h = Host(ctx); P = h.P; f = h.rx
    ctx.rule('join', 'a join request makes exactly the requesting connection a member of exactly the requested group')
    ctx.rule('leave', 'a leave request removes exactly the requesting connection from exactly the requested group')
    ctx.rule('only', 'no other message of a guest changes any group')
    ctx.rule('required', 'group name and event of the request were required to be present before they are used')
    ctx.rule('content', 'on a join of a cached type every instance of the type\'s container is sent to the requester, before the end marker')
    ctx.rule('metadata', 'each cached instance is sent with its last writer, its time of modification, its valid properties, its type and the number of instances still to come')
    ctx.rule('marker', 'the end marker is the last thing sent for a join of a cached type, names the type, and is sent for empty and missing containers too')
    ctx.rule('uncached', 'for unknown and uncached types nothing is sent and no error raised')
    ctx.rule('others', 'a join or leave sends nothing to other connections and publishes nothing')
    E = h.engine(rec_loop=True)
    ctx.fns([f])
    is_con = con_pred(f)
    nj = nl = 0
    for p in h.paths(f, E):
        gm = group_mut(h, p); tx = h.conn_tx(p)
        if not ismember(p):
            ctx.ob('only', 'other message', not gm, gm[0][1].loc() if gm else at(f), 'a message that is not a group request changes a group; ' + pathstr(p)); continue
        if p.how != 'ret':
            if ev_of(p, 'join') or ev_of(p, 'leave'): ctx.ob('uncached', 'no error', False, at(f), 'a valid request ends in an error; ' + pathstr(p))
            continue
        used = [i for i, e in enumerate(p.tr) if e.k == 'pure' or mentions(e.o or VOID, lambda x: is_fld(x, 'groupName'))]
        req = [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.name() == '_assertHasProperties']
        names = set(x.a[0].rsplit('::', 1)[-1][:-2] for i, e in req for a in e.a for x in walk(a) if x.op == 'glob' and x.a[0].endswith('_p'))
        if gm:
            tested = any(is_fld(a, 'groupName') and v is True for a, v in p.facts.items())
            ctx.ob('required', 'groupName', ('groupName' in names and req[0][0] < gm[0][0]) or tested, gm[0][1].loc(), 'the group name is used without having been required; ' + pathstr(p))
        def exact(e):
            k = e.o
            return mentions(k, h.is_groups) and mentions(k, lambda x: is_fld(x, 'groupName')) and len(e.a) == 1 and is_con(e.a[0])
        if ev_of(p, 'join'):
            nj += 1
            ctx.ob('join', 'member', len(gm) == 1 and gm[0][1].name() in ('emplace', 'insert') and exact(gm[0][1]), gm[0][1].loc() if gm else at(f), 'after the join the requester is not exactly a member of the requested group; ' + pathstr(p))
            for i, e in tx: ctx.ob('others', 'join', is_con(e.o), e.loc(), 'sent to %s; %s' % (show(e.o)[:200], pathstr(p)))
            ctx.ob('others', 'join publishes', not h.dispatches(p) and not h.publishes(p), at(f), pathstr(p))
            found = [(a, v) for a, v in p.facts.items() if a.op in ('ret', 'pc') and 'indStructType' in a.a[0] or a.op in ('ret', 'pc') and 'findType' in a.a[0]]
            cached = [v for a, v in p.facts.items() if mentions(a, lambda x: x.op == 'pc' and x.a[0].endswith('::cached'))]
            known_type = any(v for a, v in found); iscached = cached and cached[0]
            marks = [(i, e) for i, e in tx if e.a and struct_type(e.a[0]) == 'DotsCacheInfo']
            inst = [(i, e) for i, e in tx if (i, e) not in marks]
            if not iscached:
                ctx.ob('uncached', 'nothing sent', not tx, at(f), 'something is sent for an unknown or uncached type; ' + pathstr(p)); continue
            ctx.ob('marker', 'sent once', len(marks) == 1, at(f), '%d end markers are sent; %s' % (len(marks), pathstr(p)))
            for i, e in marks:
                m = e.a[0]
                ctx.ob('marker', 'content', sfield(m, 'endTransmission') is T('some', TRUE) and sfield(m, 'typeName') is not None and mentions(sfield(m, 'typeName'), lambda x: is_fld(x, 'groupName') or x.op == 'pc' and x.a[0].endswith('::name')), e.loc(), show(m)[:300])
                ctx.ob('marker', 'last', all(j < i for j, x in inst), e.loc(), 'instances are sent after the end marker; ' + pathstr(p))
                ctx.ob('marker', 'after joining', bool(gm) and gm[0][0] < i, e.loc(), 'events published between the transmission and the joining would be lost; ' + pathstr(p))
            # what is known about the container
            cont = [(a, v) for a, v in p.facts.items() if a.op in ('pc', 'ret') and ('ContainerPool' in str(a.a[0]) or a.a[0].endswith('::find'))]
            nonempty = [a.a[0] for a, v in p.facts.items() if a.op == 'empty' and v is False and mentions(a.a[0], lambda x: x.op in ('pc', 'ret') and x.a[0].rsplit('::', 1)[-1] in ('pool', 'container', 'find', 'get'))]
            if nonempty:
                ctx.ob('content', 'instance sent', len(inst) == 1, at(f), 'a cached instance is sent %d times; %s' % (len(inst), pathstr(p)))
                for e in p.tr:
                    if e.k == 'loopexit': ctx.ob('content', 'every instance', e.q == 'next', e.loc(), 'the iteration over the cached instances is ended early; ' + pathstr(p))
                # nothing but emptiness, type and cache kind may decide whether instances are sent
            else:
                skip = [a for a, v in p.facts.items() if a.op == 'empty' and v is True] or [a for a, v in cont if v is False]
                ctx.ob('content', 'nothing to send', bool(skip), at(f), 'cached instances are not sent; ' + pathstr(p))
            for i, e in inst:
                if len(e.a) < 2 or struct_type(e.a[0]) != 'DotsHeader':
                    hd = header_of(e.a[0]) if e.a else None
                    if hd is None: ctx.ob('metadata', 'header', False, e.loc(), 'cannot see the metadata sent with the instance: %s' % show(e)[:200]); continue
                    sent = e.a[0]
                else: hd = e.a[0]; sent = e.a[1]
                el = [x for x in walk(sent) if x.op in ('elem', 'each')]
                ctx.ob('content', 'instance of the container', bool(el) and any(el[0].a[0] is k for k in nonempty), e.loc(), 'sent: %s' % show(sent)[:200])
                if not el: continue
                def meta(n, src): 
                    v = sfield(hd, n)
                    return v is not None and mentions(v, lambda x: is_fld(x, src) and mentions(x, lambda y: y is el[0]))
                ctx.ob('metadata', 'sender', meta('sender', 'lastUpdateFrom'), e.loc(), 'sender: %s' % show(sfield(hd, 'sender'))[:200])
                ctx.ob('metadata', 'sentTime', meta('sentTime', 'modified'), e.loc(), 'sentTime: %s' % show(sfield(hd, 'sentTime'))[:200])
                at_ = sfield(hd, 'attributes')
                ctx.ob('metadata', 'attributes', mentions(at_, lambda x: x.op == 'pc' and x.a[0].endswith('::_validProperties') and mentions(x, lambda y: y is el[0])), e.loc(), 'attributes: %s' % show(at_)[:200])
                fc = sfield(hd, 'fromCache')
                dec = [j for j, x in enumerate(p.tr) if x.k == 'set' and j < i and x.a and x.a[0].op in ('prev', '-') and mentions(x.a[0], lambda y: y.op == 'pc' and y.a[0].endswith('::size'))]
                dec_after = [j for j, x in enumerate(p.tr) if x.k == 'set' and j > i and x.a and x.a[0].op in ('prev', '-') and mentions(x.a[0], lambda y: y.op == 'pc' and y.a[0].endswith('::size'))]
                sz = mentions(fc, lambda x: x.op == 'pc' and x.a[0].endswith('::size')); less = mentions(fc, lambda x: x.op in ('-', 'prev'))
                ctx.ob('metadata', 'remaining', sz and ((dec and not dec_after) or (less and dec_after and not dec) or (less and not dec and not dec_after)), e.loc(), 'fromCache does not count the instances still to come (0 for the last): %s; %s' % (show(fc)[:100], pathstr(p)))
                ctx.ob('metadata', 'not a removal', sfield(hd, 'removeObj') in (NONE, T('some', FALSE)), e.loc(), show(sfield(hd, 'removeObj')))
                ctx.ob('metadata', 'type', mentions(sfield(hd, 'typeName'), lambda x: x.op == 'pc' and x.a[0].endswith('::name') or is_fld(x, 'groupName')), e.loc(), show(sfield(hd, 'typeName'))[:200])
        elif ev_of(p, 'leave'):
            nl += 1
            ctx.ob('leave', 'member', len(gm) == 1 and gm[0][1].name() == 'erase' and exact(gm[0][1]), gm[0][1].loc() if gm else at(f), 'the requester does not stop being a member of exactly the requested group; ' + pathstr(p))
            ctx.ob('others', 'leave', not tx and not h.dispatches(p) and not h.publishes(p), at(f), pathstr(p))
        else:
            ctx.ob('only', 'other event', not gm, gm[0][1].loc() if gm else at(f), pathstr(p))
    ctx.need('join', 3); ctx.need('leave', 1); ctx.need('content', 3); ctx.need('marker', 3); ctx.need('metadata', 5); ctx.need('uncached', 1)
    # nobody else writes the group table
    ok = {u for u in E.visited}
    for g in P.fns.values():
        if g.clsq == H and g.b is not None and g.u not in ok and g is not h.tr and g.kind != 'dtor':
            for p in h.paths(g):
                for i, e in group_mut(h, p):
                    if any(x.q == f.q for x in [g]): continue
                    ctx.ob('only', g.q, e.name() == 'erase', e.loc(), 'a group is changed outside of the handling of group requests and closing connections; ' + pathstr(p))
    ctx.engine(E)
