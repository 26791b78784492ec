from .dispatcher import *
from .C14 import idlists, busy_of
S = 'dots::Subscription'; TR = 'dots::Transceiver'

def calls_of(p, start=0): return [e for e in p.tr[start:] if e.k in ('call', 'invoke', 'set')]

def check(ctx, tier):
    d = Disp(ctx, ['lib/src/Transceiver.cpp', 'lib/src/Subscription.cpp', os.path.join(HERE, 'analyzer', 'inst_transceiver.cpp')]); P = d.P
    ctx.rule('owner', 'a subscription cannot be copied: exactly one object is responsible for its handler')
    ctx.rule('once', 'destroying, unsubscribing or overwriting a subscription that has a handler calls its unsubscribe handler exactly once, one that has none calls nothing')
    ctx.rule('before', 'the subscription is empty before the unsubscribe handler is called and is not touched afterwards, because the call might destroy it')
    ctx.rule('moved', 'moving a subscription takes over the handler and empties the source')
    ctx.rule('discarded', 'discarding empties the subscription without calling the handler')
    ctx.rule('exactly', 'the unsubscribe handler made by subscribing removes the handler that was added, from the type and pool it was added to, and nothing else')
    ctx.rule('harmless', 'the unsubscribe handler does nothing when the transceiver is gone, and refers to it only through a weak reference')
    ctx.rule('location', 'the weak reference is updated whenever a transceiver is created or moved, and moving takes over all handlers')
    ctx.rule('ids', 'handlers of a dispatcher are stored under fresh ids, and the id of the stored handler is returned')
    ctx.rule('failed', 'a handler whose subscription fails does not stay registered')
    ctx.rule('teardown', 'handlers are destroyed while the objects their subscriptions refer to still exist, without modifying what is being destroyed')
    # ---- Subscription
    H = one_field(P, S, 'Handler<void ()>'); own = T('fld', THIS, H)
    cps = [m for r in P.records_q.get(S, []) for m in r.get('methods', []) if m['n'] in ('Subscription', 'operator=')]
    for m in cps:
        if copy_sig(m.get('f', '')): ctx.ob('owner', m['n'], bool(m.get('del')), 'lib/include/dots/Subscription.h', 'subscriptions can be copied, so that a handler is removed more than once')
    E = Engine(P, this_cls=S, opaque=foreign(P, S), may_throw=lambda e: e.k == 'invoke')
    seen = set()
    for f in P.fns.values():
        if f.clsq != S or f.b is None and not f.kind == 'ctor': continue
        if f.b is None: continue
        mv = len(f.ps) == 1 and f.ps[0]['t'] in ('dots::Subscription &&', 'Subscription &&')
        role = 'dtor' if f.kind == 'dtor' else 'move ctor' if f.kind == 'ctor' and mv else 'ctor' if f.kind == 'ctor' else 'assign' if f.q.endswith('operator=') and mv else f.q.rsplit('::', 1)[-1]
        ctx.fns([f])
        for p in E.run(f):
            if f.acc not in (0, None) and role not in ('dtor', 'move ctor', 'ctor', 'assign'): continue
            inv = [(i, e) for i, e in enumerate(p.tr) if e.k == 'invoke']
            sets = [(i, e) for i, e in enumerate(p.tr) if e.k in ('set', 'init') and e.o is own]
            has = fct(p, own)
            seen.add(role)
            if role in ('dtor', 'unsubscribe', 'assign'):
                ok = (len(inv) == 1 and mentions(inv[0][1].o, lambda x: x is own)) if has is True else has is False and not inv
                ctx.ob('once', role, ok, inv[0][1].loc() if inv else at(f), 'the unsubscribe handler is called %d times although there %s; ' % (len(inv), {True: 'is one', False: 'is none', None: 'may or may not be one'}[has]) + pathstr(p))
                for i, e in inv:
                    if role == 'assign' and sets and any(j < i and x.a[0] is not NONE and mentions(x.a[0], lambda y: is_fld(y, H)) for j, x in sets):
                        ctx.ob('before', role, False, e.loc(), 'the handler of the source is taken over before the own handler is called; ' + pathstr(p))
                    pre = [x for j, x in sets if j < i]
                    ctx.ob('before', role, bool(pre) and pre[-1].a[0].op in ('null', 'none') or bool(pre) and pre[-1].a[0] is NONE, e.loc(), 'the unsubscribe handler is called while the subscription still has it: if it destroys the subscription, it is called again; ' + pathstr(p))
                    if role != 'assign': ctx.ob('before', role, not any(j > i for j, x in sets), e.loc(), 'the subscription is accessed after its unsubscribe handler, which might have destroyed it; ' + pathstr(p))
                if role != 'assign' and p.how == 'ret' and role == 'unsubscribe': ctx.ob('once', 'unsubscribe leaves it empty', has is False or bool(sets) and empty(sets[-1][1].a[0]), at(f), pathstr(p))
            if role in ('assign', 'move ctor') and p.how == 'ret':
                oth = [x for x in p.tr if x.k == 'set' and x.o.op == 'fld' and x.o.a[1] == H and x.o.a[0] is not THIS]
                tk = sets[-1][1].a[0] if sets else None
                selfa = any(a.op == '==' and v is True and any(x is THIS for x in walk(a)) for a, v in p.facts.items())
                ctx.ob('moved', role, selfa or tk is not None and mentions(tk, lambda y: y.op == 'fld' and y.a[1] == H and y.a[0] is not THIS), at(f), 'the handler of the source is not taken over; ' + pathstr(p))
                ctx.ob('moved', role, selfa or bool(oth) and (empty(oth[-1].a[0]) or has is False and oth[-1].a[0] is own), at(f), 'the source keeps its handler, which is thus called twice; ' + pathstr(p))
                if role == 'move ctor': ctx.ob('moved', role, not inv, at(f), 'moving a subscription calls the handler; ' + pathstr(p))
            if role == 'ctor': ctx.ob('moved', 'constructed', bool(sets) and mentions(sets[-1][1].a[0], lambda y: y.op == 'par') and not inv, at(f), 'the unsubscribe handler is not kept; ' + pathstr(p))
            if role == 'discard':
                ctx.ob('discarded', role, not inv, at(f), 'discarding a subscription calls the unsubscribe handler; ' + pathstr(p))
                ctx.ob('discarded', role, has is False or bool(sets) and empty(sets[-1][1].a[0]), at(f), 'the subscription keeps its handler; ' + pathstr(p))
    for role in ('dtor', 'unsubscribe', 'assign', 'move ctor', 'discard'):
        if role not in seen: ctx.ob('moved' if 'move' in role else 'once', role + ' defined', False, 'lib/include/dots/Subscription.h', 'the operation is not defined by the class (a generated one neither empties the source nor calls the handler)')
    # ---- how transceivers make subscriptions
    this_f = [f for r in P.records_q.get(TR, []) for f in r['fields'] if f['t'].startswith('std::shared_ptr<') and 'Transceiver' in f['t']]
    if len(this_f) != 1: raise AnalysisBroken('shared location of transceivers not identified')
    TF = T('fld', THIS, this_f[0]['n'])
    nt = [f['n'] for r in P.records_q.get(TR, []) for f in r['fields'] if 'map<' in f['t'] and 'Handler<' in f['t'] and 'Descriptor' in f['t']]
    if len(nt) != 1: raise AnalysisBroken('new type handlers not identified')
    NT = T('fld', THIS, nt[0]); lists = idlists(P, TR)
    op = foreign(P, TR)
    ET = Engine(P, this_cls=TR, rec_loop=True, opaque=op, may_throw=lambda e: e.k == 'call' and e.q.endswith('::forEach'))
    loc = lambda t: mentions(t, lambda x: x.op in ('pc', 'ret') and str(x.a[0]).endswith('::lock') and mentions(x, lambda y: y is TF))
    subs = [f for f in P.some(TR + '::subscribe') if f.b is not None and 'Subscription' in f.rt]
    n = 0
    for f in subs:
        ctx.fns([f])
        for p in ET.run(f):
            add = [e for e in p.tr if e.k == 'call' and (e.q.startswith(D + '::add') or (e.o is not None and e.o is NT and e.name() in ('try_emplace', 'emplace', 'insert', 'insert_or_assign', 'operator[]')))]
            sig = '%s(%s)' % (f.q, f.ps[0]['t'].split('<')[0].rsplit('::', 1)[-1] + ', ' + f.ps[-1]['t'])
            if p.how != 'ret':
                # left with an exception: nothing that was added by this call stays
                for e in add:
                    if e.o is NT:
                        rm = [x for x in p.tr if x.k == 'call' and x.o is NT and x.name() in ('extract', 'erase') and is_key(x.a[0], e)]
                        ctx.ob('failed', sig, bool(rm), e.loc(), 'the handler stays registered although subscribing failed; ' + pathstr(p))
                    else:
                        i = p.tr.index(e)
                        rm = [x for x in p.tr if x.k == 'call' and x.q.startswith(D + '::remove')]
                        thrown = mentions(p.val, lambda x: e.ret is not None and x is e.ret)
                        ctx.ob('failed', sig, bool(rm) or i == max(j for j, x in enumerate(p.tr) if x.k in ('call', 'invoke', 'throw')), e.loc(), 'the handler stays registered although subscribing failed; ' + pathstr(p))
                continue
            lam = [x for x in walk(p.val) if x.op == 'lam']
            ctx.ob('exactly', sig + ' added', len(add) == 1, at(f), 'subscribing adds %d handlers; ' % len(add) + pathstr(p))
            if len(add) != 1: continue
            add = add[0]
            ctx.ob('exactly', sig + ' handler', bool(add.a) and mentions(add.a[-1], lambda x: x.op in ('par', 'var')), add.loc(), 'the handler that is added is not the given one; ' + pathstr(p))
            if len(lam) < 1: ctx.ob('exactly', sig + ' unsubscribe', False, at(f), 'the subscription has no unsubscribe handler'); continue
            k0 = len(p.tr)
            for q in ET.run_lambda(lam[0], p.st.fork(), []):
                n += 1
                eff = [e for e in q.tr[k0:] if e.k in ('call', 'set', 'invoke') and not (e.k == 'call' and e.name() == 'lock')]
                lk = [v for a, v in q.facts.items() if a.op in ('pc', 'ret') and str(a.a[0]).endswith('::lock') and mentions(a, lambda y: y is TF)]
                ctx.ob('harmless', sig + ' checked', bool(lk) or not eff, at(f), 'the transceiver is accessed without checking whether it still exists; ' + pathstr(q))
                if not lk: continue
                if lk[0] is False: ctx.ob('harmless', sig + ' gone', not eff and q.how == 'ret', at(f), 'something is done although the transceiver is gone; ' + pathstr(q)); continue
                for e in eff: ctx.ob('harmless', sig + ' location', e.o is not None and loc(e.o), e.loc(), 'the transceiver is accessed other than through its current location; ' + show(e)[:200])
                ctx.ob('exactly', sig + ' removed', len(eff) == 1 and eff[0].k == 'call', at(f), 'unsubscribing does %s; ' % [show(e)[:80] for e in eff] + pathstr(q))
                if len(eff) != 1: continue
                e = eff[0]
                if add.o is NT:
                    inpool = is_fld(e.o, nt[0]); inlist = e.o.op == 'fld' and e.o.a[1] in lists
                    ctx.ob('exactly', sig + ' pool', inpool and e.name() in ('extract', 'erase') or inlist and e.name() in ('emplace_back', 'push_back', 'insert', 'emplace'), e.loc(), show(e)[:200])
                    ctx.ob('exactly', sig + ' id', len(e.a) == 1 and is_key(e.a[0], add), e.loc(), 'removes %s' % show(e.a[0])[:200] if e.a else '')
                    elt = [x for x in ([e.a[0]] if e.a else [])]
                    b = [v2 for a, v in q.facts.items() for v2 in [busy_of(a, v, elt, set())] if v2 is not None]
                    ctx.ob('exactly', sig + ' deferred', (True in b) if inlist else (False in b and True not in b), e.loc(), 'a handler that might be running is destroyed, or the removal of another one is deferred; ' + pathstr(q))
                else:
                    ctx.ob('exactly', sig + ' pool', e.q == add.q.replace('::add', '::remove') and is_fld(e.o, add.o.a[1] if add.o.op == 'fld' else ''), e.loc(), 'added with %s, removed with %s' % (add.q, show(e)[:200]))
                    ctx.ob('exactly', sig + ' id', len(e.a) == 2 and e.a[1] is add.ret, e.loc(), 'removes %s' % [show(x) for x in e.a])
                    if len(add.a) == 2: ctx.ob('exactly', sig + ' type', len(e.a) == 2 and d.addr(e.a[0]) is d.addr(add.a[0]), e.loc(), 'added to %s, removed from %s' % (show(add.a[0]), [show(x) for x in e.a]))
                    else: ctx.ob('exactly', sig + ' type', len(e.a) == 2 and e.a[0].op == 'desc' or type_of(f) in show(e.a[0]), e.loc(), 'added to %s, removed from %s' % (type_of(f), [show(x) for x in e.a]))
    ctx.need('exactly', 30); ctx.need('harmless', 10)
    # ---- what the unsubscribe handlers and callbacks capture
    for f in P.fns.values():
        if f.clsq != TR or f.b is None: continue
        cb = f.kind == 'ctor'
        if not (cb or 'Subscription' in f.rt): continue
        decls = {x['d']: x['t'] for x in f.ps}
        for n_ in nodes([f.b, f.inits]):
            if n_['k'] == 'var' and 'd' in n_: decls[n_['d']] = n_.get('t', '')
        for l in [x for x in nodes([f.b, f.inits]) if x['k'] == 'lambda']:
            for c in l.get('caps', []):
                t = c.get('t', '')
                raw = c['n'] in ('this', '*this') or ('Transceiver *' in t and 'weak_ptr' not in t and not (cb and t.startswith('std::shared_ptr'))) or 'Transceiver &' in t or t == TR
                ctx.ob('harmless', '%s captures' % f.q, not raw, at(f, l), 'the callback refers to the transceiver by %s (%s), which dangles when the transceiver is moved%s' % (c['n'], t, '' if cb else ' or destroyed'))
                if c.get('ref') and not cb: 
                    init = c.get('init') or {}
                    src = decls.get(c.get('src') or c.get('d')) or decls.get(ref_decl(init)) or t
                    ctx.ob('harmless', '%s references' % f.q, src.rstrip().endswith('&'), at(f, l), 'the unsubscribe handler refers to the local object %s' % c['n'])
    # ---- location
    fields = [x['n'] for r in P.records_q.get(TR, []) for x in r['fields']]
    nctor = 0
    for f in P.fns.values():
        if f.clsq != TR or f.b is None: continue
        mv = len(f.ps) == 1 and f.ps[0]['t'] == 'dots::Transceiver &&'
        if not (f.kind == 'ctor' or (mv and f.q.endswith('operator='))): continue
        ctx.fns([f]); nctor += 1
        for p in Engine(P, this_cls=TR, opaque=op).run(f):
            wr = [(i, e) for i, e in enumerate(p.tr) if e.k in ('set', 'init') and e.o is TF]
            val = wr[-1][1].a[0] if wr else None
            mk = [e for e in p.tr if e.k in ('call', 'pure') and e.q.endswith('make_shared') and e.a and e.a[0] is THIS]
            ok = val is not None and (any(e.ret is val for e in mk) or any(e.k == 'set' and e.a and e.a[0] is THIS and e.o.op == 'deref' and (e.o.a[0] is val or e.o.a[0] is TF) and i > wr[-1][0] for i, e in enumerate(p.tr)) or (val.op == 'new' and any(x is THIS for x in walk(val))))
            ctx.ob('location', '%s %s' % (f.q, 'move' if mv else 'new'), ok, at(f), 'unsubscribing refers to another location than that of the transceiver; ' + pathstr(p))
            if mv:
                for n_ in fields:
                    w = [e for e in p.tr if e.k in ('set', 'init') and e.o is T('fld', THIS, n_)]
                    ctx.ob('location', '%s takes over %s' % (f.q, n_), bool(w) and mentions(w[-1].a[0], lambda y: y.op == 'fld' and y.a[1] == n_ and y.a[0] is not THIS), at(f), 'a moved transceiver does not take over %s' % n_)
    ctx.need('location', 10)
    # ---- ids
    ctr = [f for f in P.fns.values() if f.clsq == D and f.b is not None and f.q.startswith(D + '::add') and len(f.ps) == 2 and 'StructDescriptor' in f.ps[0]['t']]
    rem = lambda g: g.clsq == D and len(g.ps) == 2 and 'StructDescriptor' in g.ps[0]['t'] and g.q.startswith(D + '::remove')
    o2 = foreign(P, D)
    EA = Engine(P, this_cls=D, rec_loop=True, opaque=lambda g: rem(g) or o2(g) or g.clsq in ('dots::Event', 'dots::Container', 'dots::ContainerPool'), may_throw=lambda e: e.k == 'invoke', max_states=60000)
    counters = set()
    for f in ctr:
        ctx.fns([f]); nm = f.q.rsplit('::', 1)[-1]; want = 'ev' if 'Event' in f.q else 'tx'; pool = d.pools[want]
        for p in EA.run(f):
            st = [e for e in p.tr if e.k == 'call' and e.o is not None and mentions(e.o, lambda x: x is pool) and e.name() in ('emplace', 'try_emplace', 'insert', 'insert_or_assign') and len(e.a) == 2]
            other = [e for e in p.tr if e.k == 'call' and e.o is not None and any(mentions(e.o, lambda x: x is y) for k, y in d.pools.items() if k != want) and e.name() in ('emplace', 'try_emplace', 'insert')]
            shut = any(v is True and under_this_any(a) for a, v in p.facts.items())
            ctx.ob('ids', nm + ' stored', (len(st) == 1 or shut) and not other, at(f), 'the handler is not stored (once, in its own pool); ' + pathstr(p))
            if len(st) != 1: continue
            e = st[0]; idt = e.a[0]
            inc = [x for x in p.tr if x.k == 'set' and x.o is idt and idt.op == 'fld' and idt.a[0] is THIS and x.a[0] is T('+', idt, const1())]
            inc = inc or [x for x in p.tr if x.k == 'set' and idt.op == 'fld' and x.o is idt and mentions(x.a[0], lambda y: y is idt) and x.a[0].op == '+']
            ctx.ob('ids', nm + ' fresh', len(inc) == 1, e.loc(), 'the id %s is not taken from a counter that is advanced with every handler; ' % show(idt) + pathstr(p))
            counters.add(idt)
            ctx.ob('ids', nm + ' handler', mentions(e.a[1], lambda y: y.op in ('par', 'var') and y.a[-1] == f.ps[1]['n']), e.loc(), 'another handler is stored: %s' % show(e.a[1]))
            ks = d.pool_keys(e.o, pool)
            ctx.ob('ids', nm + ' type', bool(ks) and all((lambda y: y.op in ('par', 'var') and y.a[-1] == f.ps[0]['n'])(d.addr(k)) for k in ks), e.loc(), 'stored under %s' % [show(k) for k in ks])
            if p.how == 'ret': ctx.ob('ids', nm + ' returned', p.val is idt, at(f), 'returns %s, but the handler is stored under %s' % (show(p.val), show(idt)))
            elif mentions(p.val, lambda x: x.op == 'exc'):
                rm = [x for x in p.tr if x.k == 'call' and ((x.q.startswith(D + '::remove') and x.a[-1] is idt and x.q.endswith('Event') == f.q.endswith('Event') and x.q.endswith(nm[3:])) or (x.o is not None and mentions(x.o, lambda y: y is pool) and x.name() in ('erase', 'extract') and x.a and x.a[0] is idt))]
                ctx.ob('failed', nm, len(rm) == 1, e.loc(), 'the handler stays registered although the caller never gets its id; ' + pathstr(p))
    ctx.ob('ids', 'shared counter', len(counters) == 1, 'lib/src/Dispatcher.cpp', 'handlers of different kinds can have the same id (%s), but which ones are being called or removed is noted by id only' % sorted(show(c) for c in counters))
    ctx.need('ids', 8)
    # ---- teardown
    for f in P.fns.values():
        if f.kind != 'dtor' or f.clsq not in (TR, D): continue
        if f.b is None: continue
        ctx.fns([f])
        o3 = foreign(P, f.clsq)
        for p in Engine(P, this_cls=f.clsq, opaque=lambda g: o3(g) and g.clsq != D).run(f):
            if f.clsq == D: clears(ctx, p, THIS, d, f)
            else:
                disp = T('fld', THIS, one_field(P, TR, D))
                clears(ctx, p, disp, d, f)
                w = [e for e in p.tr if e.o is NT and (e.k == 'set' or e.k == 'call' and e.name() in ('clear', 'swap', 'erase'))]
                ctx.ob('teardown', 'new types destroyed', bool(w), at(f), 'handlers for new types, which might own subscriptions, are destroyed when the transceiver can no longer be accessed; ' + pathstr(p))
                for e in w: ctx.ob('teardown', 'new types in place', e.k == 'set' or e.name() == 'swap', e.loc(), 'subscriptions owned by the handlers remove from the map that is being cleared; ' + pathstr(p))
    for cls in (TR, D):
        if not [f for f in P.fns.values() if f.kind == 'dtor' and f.clsq == cls and f.b is not None]: ctx.ob('teardown', cls, False, 'lib/include', 'no destructor: handlers that own subscriptions are destroyed after the members those refer to')
    ctx.need('teardown', 4)

def copy_sig(u):
    """USR of a copy constructor or copy assignment operator of Subscription"""
    return u.endswith(('#&1S0_#', '#&1$@N@dots@S@Subscription#'))
def empty(t): return t is NONE or t.op in ('null', 'none')
def const1(): return T('c', 1)
def under_this_any(a): return isinstance(a, Term) and a.op == 'fld' and a.a[0] is THIS
def is_key(t, e):
    return isinstance(t, Term) and (bool(e.a) and t is e.a[0] or e.ret is not None and mentions(t, lambda x: x is e.ret) and show(t).endswith('.first'))
def type_of(f): return f.ps[0]['t'].rsplit('<', 1)[-1].split('>')[0].rsplit('::', 1)[-1]
def ref_decl(n):
    for x in nodes(n):
        if x['k'] in ('ref', 'var') and 'd' in x: return x['d']

def clears(ctx, p, disp, d, f):
    """every pool of the dispatcher disp is emptied; in place only while removals are ignored"""
    for k, pool in d.pools.items():
        fl = T('fld', disp, pool.a[1])
        w = [(i, e) for i, e in enumerate(p.tr) if e.o is fl and (e.k == 'set' or e.k == 'call' and e.name() in ('clear', 'swap', 'erase'))]
        ctx.ob('teardown', '%s handlers %s' % (f.clsq, k), bool(w), at(f), 'handlers, which might own subscriptions, are destroyed when the members those refer to no longer exist; ' + pathstr(p))
        for i, e in w:
            if e.k == 'set' or e.name() == 'swap': continue
            flags = [x.o.a[1] for x in p.tr[:i] if x.k == 'set' and x.o.op == 'fld' and x.o.a[0] is disp and x.a[0] is TRUE]
            off = [x.o.a[1] for x in p.tr[:i] if x.k == 'set' and x.o.op == 'fld' and x.o.a[0] is disp and x.a[0] is FALSE]
            ok = False
            for fg in set(flags) - set(off):
                ok = True
                E = d.engine()
                for g in d.P.fns.values():
                    if g.clsq != D or g.b is None or g.acc != 0 or len(g.ps) != 2 or 'StructDescriptor' not in g.ps[0]['t'] or not g.q.startswith(D + '::remove'): continue
                    for q in E.run(g):
                        if fct(q, T('fld', THIS, fg)) is not False:
                            t = [x for x in q.tr if x.k in ('call', 'set') and x.o is not None and any(mentions(x.o, lambda y: y is pl) for pl in d.pools.values())]
                            if t or q.how != 'ret': ok = False
            ctx.ob('teardown', '%s in place %s' % (f.clsq, k), ok, e.loc(), 'subscriptions owned by the handlers remove from the map that is being cleared; ' + pathstr(p))
