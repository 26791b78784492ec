from .dispatcher import *
CT, CP = 'dots::Container', 'dots::ContainerPool'

def check(ctx, tier):
    d = Disp(ctx); P = d.P
    ctx.rule('stored-first', 'an event of a cached type is applied to the container of its type, once and before any subscriber is called; other types are not stored')
    ctx.rule('event', 'subscribers get the header and instance of the event, the stored instance and its metadata, and the operation that metadata records')
    ctx.rule('once', 'every registered handler of the type of the event is called exactly once unless it was removed')
    ctx.rule('by-type', 'handlers and containers are looked up by the type of the event\'s instance')
    ctx.rule('late', 'a handler is registered under a fresh id and, before registration returns, called with a create event for every cached instance of its type')
    ctx.rule('order', 'handlers registered by a handler (which see the event as cached) are not called for the same event again')
    ctx.rule('report', 'operation, instance and property sets reported by an event are those of the event')
    E = d.engine()
    is_desc = lambda t: t.op in ('pc', 'ret') and str(t.a[0]).endswith('::_descriptor')
    fs = [f for f in P.some(D + '::dispatch') if f.b is not None and f.acc == 0]
    for f in fs:
        ctx.fns([f]); tn = f.ps[0]['n']
        def is_tr(t): return t.op in ('par', 'var') and t.a[-1] == tn
        def of_inst(t): return mentions(t, lambda x: x.op in ('pc', 'ret', 'fld') and str(x.a[0] if x.op != 'fld' else x.a[1]).endswith('instance') and mentions(x, is_tr))
        def is_inst(t): t = d.addr(t); return t.op in ('pc', 'fld') and of_inst(t) and not is_desc(t)
        def is_hdr(t): return mentions(t, lambda x: x.op in ('pc', 'ret', 'fld') and str(x.a[0] if x.op != 'fld' else x.a[1]).endswith('header') and mentions(x, is_tr))
        def desc_of_inst(t): t = d.addr(t); return is_desc(t) and of_inst(t)
        for p in E.run(f):
            cached = [v for a, v in p.facts.items() if a.op == 'pc' and a.a[0].endswith('::cached') and of_inst(a)]
            rem = [v for a, v in p.facts.items() if (a.op in ('peq', '==') and mentions(a, lambda x: is_fld(x, 'removeObj')) and a.a[1] in (TRUE, FALSE))]
            remv = None
            for a, v in p.facts.items():
                if a.op in ('peq', '==') and mentions(a.a[0], lambda x: is_fld(x, 'removeObj')): remv = v if a.a[1] is TRUE else None
                if a.op == 'deref' and is_fld(a.a[0], 'removeObj'): remv = v
                if is_fld(a, 'removeObj') and v is False: remv = False
            st = [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.q.startswith(CT + '::') and e.name() in ('insert', 'remove', 'clear')]
            cl = d.calls(p); ev = [(i, e) for i, e, k in cl if k == 'ev']; tx = [(i, e) for i, e, k in cl if k == 'tx']
            evloop = ev or any(a.op == 'empty' and v is True and mentions(a, lambda x: x is d.pools['ev']) for a, v in p.facts.items())
            if p.how != 'ret':
                if not any(e.k == 'throw' and e.fn is not None for e in p.tr): continue
                ctx.ob('stored-first', 'refused', cached == [False] and remv is True and not st and not ev, at(f), 'an event is refused: ' + pathstr(p)); continue
            ctx.ob('stored-first', 'kind known', cached in ([True], [False]), at(f), 'the event is handled without looking whether its type is cached; ' + pathstr(p))
            if cached == [True]:
                ctx.ob('stored-first', 'applied once', len(st) == 1, at(f), 'an event of a cached type is applied to the container %d times; %s' % (len(st), pathstr(p)))
                for i, e in st:
                    ctx.ob('stored-first', 'operation', remv is not None and e.name() == ('remove' if remv else 'insert'), e.loc(), 'removal: %s; %s' % (remv, pathstr(p)))
                    ctx.ob('stored-first', 'arguments', len(e.a) == 2 and is_hdr(e.a[0]) and is_inst(e.a[1]), e.loc(), show(e)[:300])
                    ctx.ob('by-type', 'container', mentions(e.o, lambda x: under_this(x, d.cpool)) and any(desc_of_inst(y) for x in walk(e.o) if x.op in ('pc', 'ret') for y in x.a[1:] if isinstance(y, Term)), e.loc(), show(e.o))
                    for j, x in ev: ctx.ob('stored-first', 'before subscribers', i < j, x.loc(), 'a subscriber is called before the container reflects the event; ' + pathstr(p))
            else:
                ctx.ob('stored-first', 'not stored', not st, at(f), 'an event of an uncached type changes a container; ' + pathstr(p))
                ctx.ob('stored-first', 'no removal', remv is False, at(f), 'the removal of an uncached instance is not refused; ' + pathstr(p))
            # what the subscribers are told
            res = st[0][1].ret if st else None
            unknown = None
            if st and st[0][1].name() == 'remove':
                v = [v for a, v in p.facts.items() if a.op == 'empty' and a.a[0] is res]
                unknown = v[-1] if v else None
                if unknown is None:
                    v = [v for a, v in p.facts.items() if a is res]; unknown = (not v[-1]) if v else None
                if ev: ctx.ob('event', 'removal of a known instance', unknown is False, ev[0][1].loc(), 'subscribers are told of the removal of an instance that was not cached; ' + pathstr(p))
            for i, e in ev:
                n = [x for x in walk(e.a[0]) if x.op == 'new' and str(x.a[0]).startswith('dots::Event')]
                if not n: ctx.ob('event', 'recognised', False, e.loc(), show(e)[:300]); continue
                a = [x for x in n[0].a[1:]]
                ctx.ob('event', 'header', is_hdr(a[0]), e.loc(), show(a[0])); ctx.ob('event', 'transmitted', is_inst(a[1]), e.loc(), show(a[1]))
                if st:
                    ctx.ob('event', 'stored instance', mentions(a[2], lambda x: x is res) and show(a[2]).rstrip(')').rstrip('(').endswith(('.first', '.key')), e.loc(), 'the event reports %s as the stored instance' % show(a[2]))
                    ctx.ob('event', 'stored metadata', mentions(a[3], lambda x: x is res) and show(a[3]).rstrip(')').rstrip('(').endswith(('.second', '.mapped')), e.loc(), 'the event reports %s as metadata' % show(a[3]))
                    if len(a) > 4 and a[4].op not in ('null', 'none'): 
                        w = 'remove' if remv else None
                        ctx.ob('event', 'operation', w is not None and mentions(a[4], lambda x: x.op == 'enum' and x.a[0].endswith('::' + w)), e.loc(), 'the operation is given as %s' % show(a[4]))
                else:
                    ctx.ob('event', 'instance', is_inst(a[2]), e.loc(), show(a[2]))
                    for nn, s in (('createdFrom', 'sender'), ('created', 'sentTime')):
                        v = sfield(a[3], nn) if struct_type(a[3]) == 'DotsCloneInformation' else None
                        ctx.ob('event', 'metadata ' + nn, v is not None and mentions(v, lambda x: is_fld(x, s)) and is_hdr(v), e.loc(), show(a[3])[:300])
                    v = sfield(a[3], 'lastOperation') if struct_type(a[3]) == 'DotsCloneInformation' else None
                    if len(a) > 4 and a[4].op not in ('null', 'none'): v = a[4]
                    ctx.ob('event', 'operation of uncached', v is not None and mentions(v, lambda x: x.op == 'enum' and x.a[0].endswith('::create')), e.loc(), show(a[3])[:300])
            for i, e in tx: ctx.ob('event', 'transmission', is_tr(d.addr(e.a[0])), e.loc(), show(e)[:200])
            # every handler once
            for k, calls in (('ev', ev), ('tx', tx)):
                pool = d.pools[k]
                for t in {x for e in p.tr for x in ((e.o,) if e.o is not None else ())} | set(p.facts):
                    for key in d.pool_keys(t, pool): ctx.ob('by-type', k + ' handlers', desc_of_inst(key), at(f), 'handlers are looked up by %s' % show(key))
                vis = [e for e in p.tr if e.k == 'loopexit' and e.o is not None and mentions(e.o, lambda x: x is pool)]
                for e in vis: ctx.ob('once', k + ' all', e.q == 'next', e.loc(), 'the iteration over the handlers ends early; ' + pathstr(p))
                emp = any(v is True and ((a.op == 'empty' and mentions(a, lambda x: x is pool))) for a, v in p.facts.items()) or any(v is False and a.op == 'has' and a.a[0] is pool for a, v in p.facts.items())
                expect = not emp and not (k == 'ev' and unknown is True)
                if not expect: ctx.ob('once', k + ' none', not calls, at(f), pathstr(p)); continue
                if calls: ctx.ob('once', k + ' once', len(calls) == 1, calls[-1][1].loc(), 'a handler is called %d times for one event; %s' % (len(calls), pathstr(p))); continue
                # not called: only because the handler has been removed
                gone = any(contains_id(a, v, pool) for a, v in p.facts.items())
                ctx.ob('once', k + ' called', gone, at(f), 'a registered handler is not called; ' + pathstr(p))
    ctx.need('once', 20); ctx.need('stored-first', 20)
    for k, fld in (('ev', d.epool), ('tx', d.tpool)):
        snap = 'std::greater' in fld['t']
        ctx.ob('order', k, snap, 'lib/include/dots/Dispatcher.h', 'the handlers are visited in the order of registration, so a handler registered by a handler is called for the same event after having seen it as cached: %s' % fld['t'])
    # ---- registration
    ids = [f['n'] for r in P.records_q.get(D, []) for f in r['fields'] if f['t'] in ('unsigned long', 'uint64_t')]
    for f in P.fns.values():
        if f.clsq != D or f.b is None or len(f.ps) != 2 or 'StructDescriptor' not in f.ps[0]['t'] or 'Handler' not in f.ps[1]['t']: continue
        ctx.fns([f]); dn, hn = f.ps[0]['n'], f.ps[1]['n']
        k = 'ev' if 'Event<' in f.ps[1]['t'] else 'tx'; pool = d.pools[k]
        isd = lambda t: (lambda y: y.op in ('par', 'var') and y.a[-1] == dn)(d.addr(t))
        for p in E.run(f):
            if p.how != 'ret': continue
            inc = [e for e in p.tr if e.k == 'set' and e.o.op == 'fld' and e.o.a[0] is THIS and e.o.a[1] in ids]
            ctx.ob('late', k + ' fresh id', len(inc) == 1 and inc[0].a[0].op == '+' and inc[0].o in inc[0].a[0].a, at(f), 'the id is not unique; ' + pathstr(p))
            put = [e for e in p.tr if e.k == 'call' and e.o is not None and mentions(e.o, lambda x: x is pool) and e.name() in ('emplace', 'insert', 'try_emplace', 'emplace_hint', 'insert_or_assign')]
            shut = any(v is True and a.op == 'fld' and a.a[0] is THIS for a, v in p.facts.items())
            if not put: ctx.ob('late', k + ' registered', shut, at(f), 'the handler is not registered; ' + pathstr(p)); continue
            e = put[0]
            ctx.ob('late', k + ' registered for', len(put) == 1 and all(isd(x) for x in d.pool_keys(e.o, pool)) and any(mentions(x, lambda y: y.op in ('par', 'var') and y.a[-1] == hn) for x in e.a), e.loc(), show(e)[:300])
            ctx.ob('late', k + ' id returned', p.val is e.a[0] or (e.a[0].op in ('new', 'pair') and p.val in e.a[0].a), at(f), 'registered as %s, returned %s' % (show(e.a[0]), show(p.val)))
            if k != 'ev': continue
            emp = [v for a, v in p.facts.items() if a.op == 'empty' and mentions(a, lambda x: under_this(x, d.cpool))]
            cl = [(i, x) for i, x in enumerate(p.tr) if x.k == 'invoke']
            if emp and emp[-1] is True: ctx.ob('late', 'nothing cached', not cl, at(f), pathstr(p)); continue
            if emp == [] and not cl: ctx.ob('late', 'replayed', False, at(f), 'a new subscriber is not told about the cached instances; ' + pathstr(p)); continue
            ctx.ob('late', 'replayed', len(cl) == 1, at(f), 'a cached instance is reported %d times to a new subscriber; %s' % (len(cl), pathstr(p)))
            for x in p.tr:
                if x.k == 'loopexit': ctx.ob('late', 'all', x.q == 'next', x.loc(), 'not all cached instances are reported; ' + pathstr(p))
            for i, x in cl:
                ctx.ob('late', 'to the new handler', mentions(x.o, lambda y: y is e.ret) or mentions(x.o, lambda y: y.op in ('par', 'var') and y.a[-1] == hn), x.loc(), 'called handler: %s' % show(x.o))
                n = [y for y in walk(x.a[0]) if y.op == 'new' and str(y.a[0]).startswith('dots::Event')]
                if not n: ctx.ob('late', 'event', False, x.loc(), show(x)[:200]); continue
                a = n[0].a[1:]
                el = [y for y in walk(a[2]) if y.op in ('each', 'elem')]
                ok = bool(el) and mentions(el[0], lambda y: y.op in ('pc', 'ret') and under_this(y.a[1], d.cpool) and any(isd(z) for z in y.a[2:] if isinstance(z, Term)))
                ctx.ob('late', 'instance', ok and show(a[2]).endswith('.first') and mentions(a[1], lambda y: bool(el) and y is el[0]), x.loc(), 'reports %s / %s' % (show(a[1]), show(a[2])))
                ctx.ob('late', 'metadata', bool(el) and mentions(a[3], lambda y: y is el[0]) and show(a[3]).endswith('.second'), x.loc(), show(a[3]))
                ctx.ob('late', 'create', len(a) > 4 and mentions(a[4], lambda y: y.op == 'enum' and y.a[0].endswith('::create')), x.loc(), 'reported as %s' % (show(a[4]) if len(a) > 4 else 'last operation'))
                at_ = sfield(a[0], 'attributes'); ro = sfield(a[0], 'removeObj'); tn = sfield(a[0], 'typeName')
                ctx.ob('late', 'properties', at_ is not None and mentions(at_, lambda y: y.op in ('pc', 'ret') and str(y.a[0]).endswith('alidProperties') and bool(el) and mentions(y, lambda z: z is el[0])), x.loc(), 'announced properties: %s' % show(at_) if at_ is not None else 'no header')
                ctx.ob('late', 'not a removal', ro is not None and (ro.op in ('none',) or (ro.op == 'some' and ro.a[0] is FALSE)), x.loc(), show(ro) if ro is not None else '')
                ctx.ob('late', 'type name', tn is not None and mentions(tn, lambda y: y.op == 'pc' and y.a[0].endswith('::name') and isd(y.a[1])), x.loc(), show(tn) if tn is not None else '')
    ctx.need('late', 15)
    # ---- what an event reports
    EV = 'dots::Event'
    ctors = [f for f in P.fns.values() if f.clsq == EV and f.kind == 'ctor' and f.b is not None and len(f.ps) == 5 and 'Struct' in f.ps[1]['t']]
    fields = None
    for f in ctors:
        ctx.fns([f]); n = [x['n'] for x in f.ps]
        for p in Engine(P, this_cls=EV).run(f):
            m = {e.o.a[1]: e.a[0] for e in p.tr if e.k == 'init' and e.o is not None and e.o.op == 'fld' and e.a}
            fields = {}
            for k_, v in m.items():
                s = d.addr(v)
                if s.op in ('par', 'var') and s.a[-1] in n[:4]: fields.setdefault(n.index(s.a[-1]), k_)
            ctx.ob('report', 'references', len(fields) == 4, at(f), 'the event does not keep all of its parts: %s' % fields)
            mtv = [v for k_, v in m.items() if k_ not in fields.values()]
            given = [v for a, v in p.facts.items() if (lambda y: y.op in ('par', 'var') and y.a[-1] == n[4])(d.addr(a))]
            ok = len(mtv) == 1 and (mentions(mtv[0], lambda x: x.op in ('par', 'var') and x.a[-1] == n[4]) if given == [True] else mentions(mtv[0], lambda x: is_fld(x, 'lastOperation') and mentions(x, lambda y: (y.op in ('par', 'var') and y.a[-1] == n[3]) or is_fld(y, fields.get(3, '?')))))
            ctx.ob('report', 'operation', ok, at(f), 'operation: %s; given: %s' % ([show(x) for x in mtv], given))
            mtf = [k_ for k_, v in m.items() if k_ not in fields.values()]
    if not fields or len(fields) != 4: raise AnalysisBroken('constructor of dots::Event not understood')
    HD, TRm, UP, CI = [fields[i] for i in range(4)]
    def val(name):
        r = []
        for f in P.some(EV + '::' + name):
            if f.b is None or f.ps: continue
            ctx.fns([f]); r += [(f, p) for p in Engine(P, this_cls=EV).run(f)]
        return r
    def fl(n): return lambda x: is_fld(x, n)
    for name, n in (('operator()', UP), ('updated', UP), ('transmitted', TRm), ('header', HD), ('cloneInfo', CI), ('mt', mtf[0])):
        for f, p in val(name): ctx.ob('report', name, d.addr(p.val).op == 'fld' and d.addr(p.val).a[1] == n, at(f), 'returns %s' % show(p.val))
    for name, w in (('isCreate', 'create'), ('isUpdate', 'update'), ('isRemove', 'remove')):
        for f, p in val(name):
            eq = [(a, v) for a, v in list(p.facts.items()) + [(p.val, True)] if a.op == '==' and mentions(a, fl(mtf[0]))]
            ok = len(eq) == 1 and mentions(eq[0][0], lambda x: x.op == 'enum' and x.a[0].endswith('::' + w)) and (p.val is eq[0][0] or p.val is (TRUE if eq[0][1] else FALSE))
            ctx.ob('report', name, ok, at(f), 'returns %s [%s]' % (show(p.val), p.describe()))
    for f, p in val('isFromMyself'):
        ok = mentions(p.val, fl('isFromMyself')) or any(mentions(a, fl('isFromMyself')) for a in p.facts)
        ctx.ob('report', 'isFromMyself', ok, at(f), show(p.val))
    for f, p in val('newProperties'): ctx.ob('report', 'newProperties', d.addr(p.val).op == 'fld' and d.addr(p.val).a[1] == 'attributes', at(f), show(p.val))
    from .C11 import setval
    for f, p in val('updatedProperties'):
        leaf = lambda t: 'I' if is_fld(t, 'attributes') else 'V' if t.op in ('pc', 'ret') and str(t.a[0]).endswith('alidProperties') and mentions(t, fl(UP)) else None
        for i in (False, True):
            for v in (False, True):
                g = setval(p.val, dict(I=i, V=v), leaf)
                ctx.ob('report', 'updatedProperties named: %s valid: %s' % (i, v), g is not None and g == (i and v), at(f), show(p.val))
    ctx.need('report', 10)

def contains_id(a, v, pool):
    """does the fact say that the id of the visited handler is contained in some list of ids"""
    def idt(x): return mentions(x, lambda y: y.op in ('each', 'elem') and mentions(y, lambda z: z is pool)) and show(x).endswith('.first')
    if a.op == 'has' and idt(a.a[1]): return v
    if a.op == '==' and any(x.op in ('pc', 'ret') and str(x.a[0]).rsplit('::', 1)[-1] == 'find' and any(isinstance(y, Term) and idt(y) for y in x.a[1:]) for x in a.a if isinstance(x, Term)): return not v
    if a.op in ('pc', 'ret') and str(a.a[0]).rsplit('::', 1)[-1] in ('contains', 'count', 'any_of', 'binary_search') and mentions(a, lambda y: y.op in ('each', 'elem') and mentions(y, lambda z: z is pool)): return v
    return False
