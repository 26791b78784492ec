from .dispatcher import *
from .C13 import contains_id
TR = 'dots::Transceiver'

def idlists(P, cls):
    return [f['n'] for r in P.records_q.get(cls, []) for f in r['fields'] if any(f['t'].startswith('std::%s<unsigned long' % c) for c in ('vector', 'set', 'unordered_set', 'deque', 'list', 'multiset', 'unordered_multiset'))]

def dispatch_rules(ctx, P, cls, fs, E, pools, lists, who):
    """rules for a function that calls every handler of a pool"""
    ADD = ('emplace_back', 'push_back', 'insert', 'emplace', 'push'); DEL = ('pop_back', 'erase', 'pop', 'extract', 'remove')
    roles = {'busy': set(), 'gone': set()}
    L = {T('fld', THIS, n) for n in lists}
    for f in fs:
        ctx.fns([f])
        for p in E.run(f):
            for k, pool in pools.items():
                inv = [(i, e) for i, e in enumerate(p.tr) if e.k == 'invoke' and len(e.a) == 1 and mentions(e.o, lambda x: x is pool)]
                for i, e in inv:
                    idt = lambda x: mentions(x, lambda y: y.op in ('each', 'elem') and mentions(y, lambda z: z is pool)) and show(x).endswith('.first')
                    before = [x for x in p.tr[:i] if x.k == 'call' and x.o in L and x.name() in ADD and x.a and idt(x.a[0])]
                    nxt = [j for j, x in enumerate(p.tr) if j > i and x.k == 'invoke' and len(x.a) == 1]
                    after = [x for x in p.tr[i + 1:nxt[0] if nxt else len(p.tr)] if x.k == 'call' and x.o in L and x.name() in DEL]
                    marks = {x.o for x in before}
                    ctx.ob('marked', '%s %s' % (who, k), bool(marks), e.loc(), 'a handler is called without being marked as being called: it could be destroyed while it runs; ' + pathstr(p))
                    for m in marks:
                        roles['busy'].add(m)
                        un = [x for x in after if x.o is m]
                        ctx.ob('unmarked', '%s %s' % (who, k), len(un) == 1 and (un[0].name() in ('pop_back', 'pop') or idt(un[0].a[0])), e.loc(), 'the handler stays marked as being called (its removal would be deferred forever), or another one is unmarked; ' + pathstr(p))
                    caught = [x for x in p.tr[i + 1:] if x.k == 'catch']
                    thrown = e.caught is not None or any(mentions(c.a[0], lambda y: y.op == 'exc' and 'invoke' in show(y)) for c in caught if c.a)
                    ctx.ob('contained', '%s %s' % (who, k), p.how == 'ret' or 'invoke' not in show(p.val), e.loc(), 'an exception of a handler leaves the dispatching function: other handlers are not called and the bookkeeping is not completed; ' + pathstr(p))
                    sk = {fl for fl in L for a, v in p.facts.items() if mentions(a, lambda x: x is fl) and not v is None and refers(a, pool)}
                    skipfacts = [(a, v) for a, v in p.facts.items() if contains_id(a, True, pool) is not False or contains_id(a, False, pool) is not False]
                    ctx.ob('skipped', '%s %s' % (who, k), any(not contains_id(a, v, pool) for a, v in skipfacts), e.loc(), 'a handler is called without looking whether it has been removed meanwhile; ' + pathstr(p))
                    for a, v in skipfacts:
                        roles['gone'] |= {fl for fl in L if mentions(a, lambda x: x is fl)}
                # how the removals are completed
                fl = [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.o is not None and mentions(e.o, lambda x: x is pool) and e.name() in ('erase', 'extract')]
                for i, e in fl:
                    a0 = e.a[0] if e.a else None
                    elt = [x for x in walk(a0) if x.op in ('each', 'elem')] if a0 is not None else []
                    free = any(not v2 for a, v in p.facts.items() for v2 in [busy_of(a, v, elt, L)] if v2 is not None)
                    ctx.ob('completed', '%s %s not running' % (who, k), free, e.loc(), 'a handler that may still be running (of an outer dispatch) is destroyed; ' + pathstr(p))
    return roles

def refers(a, pool): return mentions(a, lambda x: x is pool)
def busy_of(a, v, elt, L):
    """truth of 'the element is contained in a list' stated by fact (a, v), or None"""
    if not elt: return None
    m = lambda t: isinstance(t, Term) and mentions(t, lambda y: y in elt)
    if a.op == 'has' and m(a.a[1]): return v
    if a.op == '==':
        for x in a.a:
            if isinstance(x, Term) and x.op in ('pc', 'ret') and str(x.a[0]).rsplit('::', 1)[-1] == 'find' and any(m(y) for y in x.a[1:]): return not v
    return None

def check(ctx, tier):
    d = Disp(ctx, ['lib/src/Transceiver.cpp']); P = d.P
    ctx.rule('marked', 'while a handler is called it is marked, so that its removal is deferred')
    ctx.rule('unmarked', 'the mark is removed after the call, also if the handler throws')
    ctx.rule('contained', 'no exception of a handler leaves the dispatching function')
    ctx.rule('reported', 'an exception of a handler is reported, and reporting cannot fail')
    ctx.rule('skipped', 'a handler whose removal is pending is not called')
    ctx.rule('deferred', 'removing a handler that is being called only notes it; any other is removed at once; an unknown one is refused')
    ctx.rule('completed', 'noted removals are completed after the last handler returned, or kept noted: none is lost, and no running handler is destroyed')
    ctx.rule('stable', 'handlers live in containers in which adding handlers does not move the ones being called')
    ctx.rule('no-iteration', 'no handler is called while a container it can change is being iterated')
    ctx.rule('no-dangling', 'what a handler is given stays alive while other handlers are called')
    thr = lambda e: e.k == 'invoke' and len(e.a) == 1
    E = d.engine(may_throw=thr)
    fs = [f for f in P.some(D + '::dispatch') if f.b is not None and f.acc == 0]
    roles = dispatch_rules(ctx, P, D, fs, E, d.pools, idlists(P, D), 'dispatch')
    ctx.need('marked', 20); ctx.need('contained', 20); ctx.need('skipped', 20)
    for f in fs:
        for p in E.run(f):
            for i, e in enumerate(p.tr):
                if e.k != 'catch' or not e.a or 'invoke' not in show(e.a[0]): continue
                rep = [x for x in p.tr[i + 1:] if x.k == 'invoke' and any(mentions(y, lambda z: z.op == 'eptr') for y in x.a)]
                ctx.ob('reported', 'dispatch', len(rep) >= 1 and rep[0].o.op == 'fld', e.loc(), 'the exception of a handler is not reported; ' + pathstr(p))
    for f in P.fns.values():
        if f.clsq == TR and f.b is not None and len(f.ps) == 2 and 'StructDescriptor' in f.ps[0]['t'] and 'exception_ptr' in f.ps[1]['t']:
            ctx.fns([f])
            for p in Engine(P, this_cls=TR, opaque=foreign(P, TR)).run(f): ctx.ob('reported', f.q, p.how == 'ret', at(f), 'reporting the error of a handler raises an exception; ' + pathstr(p))
    # ---- new-type handlers
    nt = [f['n'] for r in P.records_q.get(TR, []) for f in r['fields'] if 'map<' in f['t'] and 'Handler<' in f['t'] and 'Descriptor' in f['t']]
    if len(nt) != 1: raise AnalysisBroken('new type handlers not identified')
    NT = T('fld', THIS, nt[0])
    nf = [f for f in P.fns.values() if f.clsq == TR and f.b is not None and len(f.ps) == 1 and 'type::Descriptor<' in f.ps[0]['t'] and any(nodes_ref(n, nt[0]) for n in nodes(f.b))]
    nf += [f for f in P.some(TR + '::handleNewType') if f not in nf and f.b is not None]
    nf = [f for f in nf if any(e.k == 'invoke' for p in Engine(P, this_cls=TR, rec_loop=True).run(f) for e in p.tr)]
    if not nf: raise AnalysisBroken('dispatch of new types not identified')
    En = Engine(P, this_cls=TR, rec_loop=True, opaque=foreign(P, TR), may_throw=thr)
    r2 = dispatch_rules(ctx, P, TR, nf, En, {'new type': NT}, idlists(P, TR), 'new types')
    for E_, fs_, pools, cls, ro in ((E, fs, d.pools, D, roles), (En, nf, {'new type': NT}, TR, r2)):
        gone = {T('fld', THIS, n) for n in idlists(P, cls)} - ro['busy']
        n = 0
        for f in fs_:
            for p in E_.run(f):
                # a list of noted removals that is emptied must have been visited completely, every entry being erased or noted again
                for i, e in enumerate(p.tr):
                    for g in gone:
                        if (e.k == 'set' and e.o is g) or (e.k == 'call' and e.o is g and e.name() in ('clear', 'swap')):
                            n += 1
                            ent = [x for x in p.tr[i + 1:] if x.k == 'loopexit' and x.o is not None and (mentions(x.o, lambda y: y is g))]
                            emp = any(a.op == 'empty' and v is True and mentions(a.a[0], lambda y: y is g or (y.op == 'new' and 'vector' in str(y.a[0]))) for a, v in p.facts.items())
                            # entries visited before the list is emptied
                            pre = [x for x in p.tr[:i] if x.k == 'loopexit' and x.o is not None and mentions(x.o, lambda y: y is g)]
                            later = any(x.k == 'set' and x.o is g for x in p.tr[i + 1:])
                            ok = bool(ent) or emp or bool(pre)
                            taken = ent or pre
                            ctx.ob('completed', '%s visited' % f.q, ok or later, e.loc(), 'noted removals are dropped; ' + pathstr(p))
                            for x in taken: ctx.ob('completed', '%s all' % f.q, x.q == 'next', x.loc(), 'not all noted removals are completed; ' + pathstr(p))
                            if ent:
                                el = ent[0].o
                                done = [x for x in p.tr[i + 1:] if x.k == 'call' and any(mentions(y, lambda z: z is el) for y in x.a) and x.name() in ('erase', 'extract', 'emplace_back', 'push_back', 'insert')]
                                ctx.ob('completed', '%s handled' % f.q, bool(done), ent[0].loc(), 'a noted removal is neither completed nor kept; ' + pathstr(p))
                                if done and done[0].name() in ('emplace_back', 'push_back', 'insert'):
                                    ctx.ob('completed', '%s kept' % f.q, done[0].o in gone or done[0].o.op == 'new' or mentions(done[0].o, lambda z: z in gone), done[0].loc(), 'the removal is kept in %s' % show(done[0].o))
        if cls == D: ctx.ob('completed', cls + ' completes removals', n > 0, at(fs_[0]), 'noted removals are never completed')
        else: ctx.ob('completed', cls + ' completes removals', n > 0, at(fs_[0]), 'noted removals are never completed')
    for f in nf:
        for p in En.run(f):
            for i, e in enumerate(p.tr):
                if e.k == 'catch' and e.a and 'invoke' in show(e.a[0]): ctx.ob('contained', 'new types caught', True, e.loc())
    # ---- removal
    E2 = d.engine()
    for f in P.fns.values():
        if f.clsq != D or f.b is None or f.acc != 0 or len(f.ps) != 2 or 'StructDescriptor' not in f.ps[0]['t'] or f.ps[1]['t'] not in ('unsigned long', 'uint64_t', 'dots::Dispatcher::id_t'): continue
        ctx.fns([f]); idn = f.ps[1]['n']; dn = f.ps[0]['n']
        isid = lambda t: mentions(t, lambda y: y.op in ('par', 'var') and y.a[-1] == idn)
        used = {k for p in E2.run(f) for e in p.tr for k, pool in d.pools.items() if e.o is not None and mentions(e.o, lambda x: x is pool)} | {k for p in E2.run(f) for a in p.facts for k, pool in d.pools.items() if mentions(a, lambda x: x is pool)}
        want = 'ev' if 'Event' in f.q else 'tx'
        ctx.ob('deferred', f.q.rsplit('::', 1)[-1] + ' pool', used == {want}, at(f), 'removes from the handlers of %s' % used)
        pool = d.pools[want]
        for p in E2.run(f):
            er = [e for e in p.tr if e.k == 'call' and e.o is not None and mentions(e.o, lambda x: x is pool) and e.name() in ('erase', 'extract', 'clear')]
            no = [e for e in p.tr if e.k == 'call' and e.o in {T('fld', THIS, n) for n in idlists(P, D)} and e.name() in ('emplace_back', 'push_back', 'insert', 'emplace')]
            busy = None; known = None
            for a, v in p.facts.items():
                if a.op == 'has' and mentions(a.a[0], lambda x: x is pool) and isid(a.a[1]): known = v
                b = None
                if a.op == 'has' and a.a[0].op == 'fld' and a.a[0] in {T('fld', THIS, n) for n in idlists(P, D)} and isid(a.a[1]): b = v
                if a.op == '==' and any(isinstance(x, Term) and x.op in ('pc', 'ret') and str(x.a[0]).rsplit('::', 1)[-1] == 'find' and any(isinstance(y, Term) and isid(y) for y in x.a[1:]) and not mentions(x, lambda y: y is pool) for x in a.a): b = not v
                if b is not None: busy = b if busy is None else busy or b
            shut = any(v is True and a.op == 'fld' and a.a[0] is THIS for a, v in p.facts.items())
            nm = f.q.rsplit('::', 1)[-1]
            if p.how == 'throw': ctx.ob('deferred', nm + ' refused', known is not True and not er and not no, at(f), pathstr(p)); continue
            if er: ctx.ob('deferred', nm + ' removed at once', busy is False and len(er) == 1 and er[0].name() in ('erase', 'extract') and er[0].a and isid(er[0].a[0]), er[0].loc(), 'a handler that may be running is destroyed, or another one is removed; ' + pathstr(p))
            elif no: ctx.ob('deferred', nm + ' noted', busy is True and len(no) == 1 and isid(no[0].a[0]) and no[0].o not in roles['busy'], no[0].loc(), pathstr(p))
            else: ctx.ob('deferred', nm + ' done', shut, at(f), 'the handler is not removed and no error is raised; ' + pathstr(p))
            for t in {e.o for e in er} | set(p.facts):
                for key in d.pool_keys(t, pool): ctx.ob('deferred', nm + ' type', (lambda y: y.op in ('par', 'var') and y.a[-1] == dn)(d.addr(key)), at(f), 'handlers are looked up by %s' % show(key))
    ctx.need('deferred', 10)
    for k, fld in (('ev', d.epool), ('tx', d.tpool)):
        inner = fld['t'].split(',', 1)[1] if ',' in fld['t'] else fld['t']
        ctx.ob('stable', k, 'std::map<unsigned long' in fld['t'] or 'std::list<' in inner, 'lib/include/dots/Dispatcher.h', fld['t'])
    ntf = [f for r in P.records_q.get(TR, []) for f in r['fields'] if f['n'] == nt[0]][0]
    ctx.ob('stable', 'new type', ntf['t'].startswith(('std::map<', 'std::list<')), 'lib/include/dots/Transceiver.h', ntf['t'])
    # ---- what handlers can pull away
    for f in P.fns.values():
        if f.clsq != D or f.b is None or f.acc != 0: continue
        for p in d.engine().run(f):
            for i, e, k in [(i, e, 'ev') for i, e in enumerate(p.tr) if e.k == 'invoke' and any(x.op == 'new' and str(x.a[0]).startswith('dots::Event') for y in e.a for x in walk(y))]:
                loops = [x for x in p.tr[i + 1:] if x.k == 'loopexit' and x.o is not None and mentions(x.o, lambda y: y.op in ('pc', 'ret') and under_this(y.a[1] if len(y.a) > 1 and isinstance(y.a[1], Term) else y, d.cpool))]
                ctx.ob('no-iteration', f.q, not loops, e.loc(), 'a handler is called while the container is iterated; if it removes the instance, the iteration continues from a destroyed element')
                ev = [x for y in e.a for x in walk(y) if x.op == 'new' and str(x.a[0]).startswith('dots::Event')][0]
                ins = [x for x in p.tr[:i] if x.k == 'call' and x.q == 'dots::Container::insert']
                hl = [x for x in p.tr[i + 1:] if x.k == 'loopexit' and x.o is not None and mentions(x.o, lambda y: y is d.pools['ev'])]
                ctx.ob('no-dangling', f.q, not (hl and ins and any(mentions(a, lambda z: z is ins[-1].ret) for a in ev.a[1:] if isinstance(a, Term))), e.loc(), 'the handlers get references to the stored instance, which an earlier handler may remove')
    ctx.need('no-iteration', 2)

def nodes_ref(n, name): return n.get('k') == 'mem' and n.get('n') == name
