from .common import *
TR = 'dots::Transceiver'

def setval(t, c, leaf):
    """is property x in set t, x being described by combination c (None: unknown)"""
    if t.op in ('some', 'deref') and leaf(t) is None: return setval(t.a[0], c, leaf)
    if t.op in ('pc', 'ret') and isinstance(t.a[0], str) and 'PropertySet::operator' in t.a[0] and len(t.a) > 1 and isinstance(t.a[1], Term):
        op = t.a[0].rsplit('operator', 1)[-1].rstrip('=')
        a = setval(t.a[1], c, leaf); b = setval(t.a[2], c, leaf) if len(t.a) > 2 and isinstance(t.a[2], Term) else None
        if op == '+': return True if a or b else None if a is None or b is None else False
        if op == '^': return False if a is False or b is False else None if a is None or b is None else True
        if op == '-': return False if a is False or b is True else None if a is None or b is None else True
        if op == '~': return None if a is None else not a
    k = leaf(t)
    return c.get(k)

def ispar(t, ty, f):
    n = [x['n'] for x in f.ps if ty(x['t'])]
    return t.op in ('par', 'var') and t.a[-1] in n

def check(ctx, tier):
    P = load(ctx, ['lib/src/GuestTransceiver.cpp', 'lib/src/HostTransceiver.cpp', 'lib/src/Connection.cpp', 'lib/src/Transceiver.cpp', 'lib/src/dots.cpp'])
    ctx.rule('refused', 'nothing is sent or delivered for an instance of a sub-structure type or one with missing key properties: the publication fails')
    ctx.rule('selection', 'the announced properties are exactly the selected ones the type has plus the key (by default those that are set), decided by truth table per property')
    ctx.rule('metadata', 'the announced event names the type of the instance, its sending time and whether it is a removal, and carries the given instance')
    ctx.rule('sent', 'an accepted publication is sent to the host (guest) or delivered locally and to the group (host)')
    ctx.rule('removal', 'a removal is published with exactly the key properties and the removal mark')
    ctx.rule('forwarded', 'the global functions pass their arguments on unchanged')
    base = [f for f in P.some(TR + '::remove')]
    subs = sorted({f.clsq for f in P.fns.values() if f.b is not None and f.q.endswith('::publish') and len(f.ps) == 3 and any('type::Struct' in x['t'] for x in f.ps) and f.clsq and f.clsq != TR})
    is_inst = lambda f: (lambda t: ispar(t, lambda ty: 'type::Struct' in ty, f))
    is_sel = lambda f: (lambda t: ispar(t, lambda ty: 'PropertySet' in ty, f))
    is_rem = lambda f: (lambda t: ispar(t, lambda ty: ty == 'bool', f))
    for cls in subs:
        E = Engine(P, this_cls=cls, opaque=foreign(P, cls, 'dots::Connection', also=('dots::Connection::handleError',)))
        for f in P.some(cls + '::publish'):
            if len(f.ps) != 3: continue
            ctx.fns([f]); inst, sel, rem = is_inst(f), is_sel(f), is_rem(f)
            def of_inst(t): return mentions(t, inst)
            def leaf(t):
                if t.op in ('deref', 'par', 'var') and mentions(t, sel): return 'I'
                n = t.a[0].rsplit('::', 1)[-1].lstrip('_') if t.op in ('pc', 'ret') and isinstance(t.a[0], str) else ''
                if not of_inst(t): return None
                return {'validProperties': 'V', 'keyProperties': 'K', 'properties': 'P'}.get(n)
            combos = [dict(V=v, K=k, P=p, I=i) for v in (0, 1) for k in (0, 1) for p in (0, 1) for i in (0, 1) if (p or not (v or k)) and (v or not k)]
            combos = [{a: bool(b) for a, b in c.items()} for c in combos]
            for p in E.run(f):
                eff = [e for e in p.tr if e.k in ('call', 'invoke') and ((e.name() == 'transmit' and e.q.startswith('dots::')) or e.q == 'dots::Dispatcher::dispatch' or (e.name() == 'publish' and e.q.startswith('dots::')))]
                sub = [v for a, v in p.facts.items() if a.op == 'pc' and a.a[0].endswith('::substructOnly') and of_inst(a)]
                # instances known to have all key properties on this path
                key = None
                for a, v in p.facts.items():
                    if a.op == '<' and leaf(a.a[0]) == 'V' and leaf(a.a[1]) == 'K': key = not v
                    if a.op == '<' and leaf(a.a[0]) == 'K' and leaf(a.a[1]) == 'V' and v: key = True
                    if a.op == 'empty' and all(setval(a.a[0], c, leaf) is not None for c in combos + [dict(V=False, K=True, P=True, I=False)]) and setval(a.a[0], dict(V=False, K=True, P=True, I=False), leaf) and not any(setval(a.a[0], c, leaf) for c in combos): key = v
                    if a.op in ('==', 'peq') and len(a.a) == 2 and v and all(isinstance(x, Term) for x in a.a):
                        bad = dict(V=False, K=True, P=True, I=False)
                        l, r = setval(a.a[0], bad, leaf), setval(a.a[1], bad, leaf)
                        if l is not None and r is not None and l != r: key = True
                ok = sub and sub[-1] is False and key is True
                if eff: ctx.ob('refused', cls, bool(ok), eff[0].loc(), 'the instance is sent or delivered although %s; %s' % ('its type may be sub-structure only' if not (sub and sub[-1] is False) else 'key properties may be missing', pathstr(p)))
                elif p.how != 'throw': ctx.ob('refused' if not ok else 'sent', cls + ' silently', False, at(f), 'the publication returns without effect and without error; ' + pathstr(p))
                else: ctx.ob('refused', cls + ' throws', True, at(f))
                hs = []
                for e in eff:
                    h = None; body = None
                    for a in e.a:
                        for x in walk(a):
                            if x.op in ('struct', 'upd') and struct_type(x) == 'DotsHeader' and h is None: h = x
                    where = e.loc(); key_ = '%s %s' % (cls, e.q)
                    if h is None: ctx.ob('metadata', key_, False, where, 'the announced event is not determined by this publication: %s' % show(e)[:200]); continue
                    hs.append(e)
                    at_ = sfield(h, 'attributes')
                    given = [v for a, v in p.facts.items() if sel(a) or (a.op == 'deref' and sel(a.a[0]))]
                    given = given[0] if given else None
                    for c in combos:
                        got = setval(at_, c, leaf)
                        for g in ((True, False) if given is None else (given,)):
                            want = ((c['I'] or c['K']) and c['P']) if g else c['V']
                            d = 'selection %s; property set: %s, key: %s, in the type: %s, selected: %s' % ('given' if g else 'defaulted', c['V'], c['K'], c['P'], c['I'])
                            ctx.ob('selection', key_ + ': ' + d, got is not None and got == want, where, 'announced: %s (expected %s), announced set %s; %s' % (got, want, show(at_), pathstr(p, 4)))
                    tn = sfield(h, 'typeName'); ro = sfield(h, 'removeObj'); stm = sfield(h, 'sentTime')
                    ctx.ob('metadata', key_ + ' typeName', mentions(tn, lambda x: x.op == 'pc' and x.a[0].endswith('::name') and of_inst(x)), where, show(tn))
                    ctx.ob('metadata', key_ + ' removeObj', ro.op == 'some' and rem(ro.a[0]), where, show(ro))
                    ctx.ob('metadata', key_ + ' sentTime', mentions(stm, lambda x: x.op in ('ret', 'pc') and str(x.a[0]).endswith('::Now')), where, show(stm))
                    ctx.ob('metadata', key_ + ' instance', any(inst(x) or (x.op == 'new' and any(inst(y) for y in walk(x) )) for x in e.a), where, show(e)[:200])
                if hs:
                    names = {e.name() for e in hs}
                    if 'Host' in cls:
                        ctx.ob('sent', cls + ' delivered locally', sum(e.name() == 'dispatch' for e in hs) == 1, hs[0].loc(), pathstr(p))
                    else: ctx.ob('sent', cls + ' transmitted once', sum(e.name() == 'transmit' for e in hs) == 1, hs[0].loc(), pathstr(p))
        ctx.engine(E)
    for f in base + [g for g in P.some('dots::remove') if len(g.ps) == 1]:
        ctx.fns([f]); inst = is_inst(f)
        E = Engine(P, opaque=lambda g: g.q.endswith('::publish') )
        for p in E.run(f):
            ev = [e for e in p.tr if e.k == 'call' and e.name() in ('publish', 'transmit', 'dispatch', 'remove') and e.q.startswith('dots::')]
            ok = p.how == 'ret' and len(ev) == 1
            ctx.ob('removal', f.q, ok, at(f), 'a removal is published %d times; %s' % (len(ev), pathstr(p)))
            if ok:
                e = ev[0]
                if e.name() == 'remove': ctx.ob('removal', f.q + ' instance', len(e.a) == 1 and mentions(e.a[0], inst), e.loc(), show(e)[:200]); continue
                ctx.ob('removal', f.q + ' properties', len(e.a) == 3 and mentions(e.a[1], lambda x: x.op == 'pc' and x.a[0].rsplit('::', 1)[-1].lstrip('_') == 'keyProperties' and mentions(x, inst)) and not mentions(e.a[1], lambda x: x.op == 'pc' and 'operator' in x.a[0]), e.loc(), show(e.a[1]) if len(e.a) > 1 else '')
                ctx.ob('removal', f.q + ' mark', len(e.a) == 3 and e.a[2] is TRUE, e.loc(), show(e)[:200])
                ctx.ob('removal', f.q + ' instance', mentions(e.a[0], inst), e.loc(), show(e)[:200])
    for f in [g for g in P.some('dots::publish') if len(g.ps) == 3]:
        ctx.fns([f])
        E = Engine(P, opaque=lambda g: g.clsq not in ('', None) and g.q.endswith('::publish'))
        for p in E.run(f):
            ev = [e for e in p.tr if e.k == 'call' and e.name() == 'publish']
            ok = p.how != 'ret' or (len(ev) == 1 and len(ev[0].a) == 3 and is_inst(f)(ev[0].a[0]) and is_sel(f)(ev[0].a[1]) and is_rem(f)(ev[0].a[2]))
            ctx.ob('forwarded', f.q, ok, at(f), pathstr(p))
    ctx.need('refused', 4); ctx.need('selection', 20); ctx.need('removal', 4); ctx.need('forwarded', 1)
