from .async_ import *
from .common import *
REARM_ERR = True

def uc(a):
    """(lower bound comparison) what a fact about use_count says: 'one' or 'many' when true"""
    x = [y for y in a.a if isinstance(y, Term) and y.op in ('ret', 'pc') and str(y.a[0]).endswith('use_count')] if a.op in ('==', '<', 'peq') else []
    if not x: return None
    k = [y for y in a.a if isinstance(y, Term) and y.op == 'int']
    if len(k) != 1: return None
    n = int(k[0].a[0])
    if a.op in ('==', 'peq'): return 'one' if n == 1 else None
    if a.a[0] is k[0]: return 'many' if n == 1 else None          # 1 < count
    return 'one' if n == 2 else None                              # count < 2
def registered(facts, disc):
    """True / False / None: does the owner of the timer or observer still exist (or has it been detached)"""
    one = d = None; alive = None
    for a, v in facts.items():
        u = uc(a)
        if u: one = v if u == 'one' else not v
        elif a.op == 'fld' and a.a[1] == disc: d = v if d is None else d or v
        elif life(a):
            n = str(a.a[0]).rsplit('::', 1)[-1]
            if n == 'expired': alive = not v
            elif n == 'lock': alive = v
        elif a.op in ('==', 'peq') and NULL in a.a and any(y.op in ('ret', 'pc') and str(y.a[0]).endswith('::lock') for y in a.a): alive = not v
    if alive is not None and (alive or d is not True): return alive
    if one is False or d is True: return True
    if one is True and d is False: return False
    return None

def sources(tr, terms):
    """everything that contributes to the terms, through the calls that compute them"""
    made = {e.ret: e for e in tr if e.ret is not None}; out = []; seen = set(); todo = list(terms)
    while todo:
        t = todo.pop()
        for y in walk(t):
            if id(y) in seen: continue
            seen.add(id(y)); out.append(y)
            if y in made: todo += [x for x in list(made[y].a) + [made[y].o] if x is not None]
    return out

def check(ctx, tier):
    ctx.rule('released', 'the handler of a timer or observer is called only while its owner still exists or has detached it, and not for a cancelled wait')
    ctx.rule('once', 'an expiry or event calls the handler exactly once')
    ctx.rule('rearm', 'after its handler a periodic timer (an observer without error) waits again exactly if it is still registered, which is decided after the handler was called; a one-shot timer never does')
    ctx.rule('due', 'a timer waits for its interval: a one-shot timer from now on, a periodic timer from the previous due time on')
    ctx.rule('start', 'creating a timer or observer starts exactly one wait')
    ctx.rule('detach', 'detaching marks the timer or observer and releases it without cancelling it')
    ctx.rule('owner', 'the state of a timer or observer is shared by the object and its pending wait alone')
    ctx.rule('safe', 'the handler is owned by the pending wait, so it may release its own timer or observer')
    ctx.rule('ids', 'a timer added by id is stored under a fresh id, which is returned, and removing an id removes exactly that timer')
    A = Async(ctx).run(); P = A.P
    for cls, per in (('dots::Timer', True), ('dots::io::posix::FdObserver', False)):
        recs = P.records_q.get(cls, [])
        fld = [x for r in recs for x in r['fields'] if 'shared_ptr<' in x['t']]
        if len({x['n'] for x in fld}) != 1: raise AnalysisBroken('the shared state of %s was not found' % cls)
        data = re.search(r'shared_ptr<(?:struct )?([\w:]+)>', fld[0]['t']).group(1); mdata = fld[0]['n']
        bools = {x['n'] for x in P.records[data]['fields'] if x['t'] == 'bool'}
        disc = None; f = P.get(cls + '::discard')
        ents = [(g, ps) for t, g, ps in A.entries if t == cls]
        for g, ps in ents:
            if g.q != cls + '::discard': continue
            for p in ps:
                for e in p.tr:
                    if e.k == 'set' and e.o is not None and e.o.op == 'fld' and e.o.a[1] in bools and e.a[0] is TRUE: disc = e.o.a[1]
        if disc is None: raise AnalysisBroken('the flag that tells that %s was detached was not found' % cls)
        perf = bools - {disc}; points = {x['n'] for x in P.records[data]['fields'] if 'TimePoint' in x['t'] or 'time_point' in x['t']}
        if per and len(perf) != 1: raise AnalysisBroken('the flag for periodic timers was not found')
        perf = list(perf)[0] if per else None
        # detach
        for g, ps in ents:
            if g.q != cls + '::discard': continue
            for p in ps:
                s = [i for i, e in enumerate(p.tr) if e.k == 'set' and e.o is not None and e.o.op == 'fld' and e.o.a[1] == disc and e.a[0] is TRUE]
                r = [i for i, e in enumerate(p.tr) if e.o is not None and e.o.op == 'fld' and e.o.a[0] is THIS and e.o.a[1] == mdata and (e.k == 'set' and e.a and e.a[0] is NULL or e.name() == 'reset')]
                c = [e for e in p.tr if e.name() in ('cancel', 'close', 'release')]
                null = any(a.op in ('==', 'peq') and NULL in a.a and v is True and mentions(a, lambda x: x.op == 'fld' and x.a[1] == mdata) for a, v in p.facts.items()) or any(a.op == 'fld' and a.a[1] == mdata and v is False for a, v in p.facts.items())
                if null and not s: continue
                ok = len(s) >= 1 and len(r) >= 1 and not any(y is NULL for y in walk(p.tr[s[0]].o)) and not c
                ctx.ob('detach', cls.rsplit('::', 1)[-1], ok, at(g), '' if ok else 'the object is %s' % ('cancelled' if c else 'not marked as detached' if not s else 'not released'))
        # completions
        starters = {c.fn.u for c in A.comps.values() if c.cls == cls}
        rearm = lambda e: is_async(e) or e.k == 'call' and e.node.get('f') in starters
        n = 0
        for c in A.comps.values():
            if c.cls != cls: continue
            n += 1; name = c.fn.short(); err = None
            strong = [cp for cp in c.node.get('caps', []) if data in str(cp.get('t'))]
            for q in c.paths:
                tr = q.tr[c.start:]
                inv = [i for i, e in enumerate(tr) if e.k == 'invoke']
                err = any(v is True and a.op in ('par', 'pc') and any(x.op == 'par' for x in walk(a)) for a, v in q.facts.items())
                for i in inv:
                    e = tr[i]
                    r = registered(e.facts, disc)
                    ctx.ob('released', name, r is True, e.loc(), '' if r else 'the handler is called although the owner might have removed the %s' % ('timer' if per else 'observer'))
                    ab = any('operation_aborted' in show(a) and v is False or a.op in ('par', 'pc') and a.op == 'par' and v is False or 'operator bool' in str(a.a[0]) and v is False for a, v in e.facts.items())
                    ctx.ob('released', name + ' cancelled', ab, e.loc(), '' if ab else 'the handler is called for a wait that was cancelled')
                    own = bool(strong) and e.o is not None and mentions(e.o, lambda x: x.op in ('deref',) or x.op == 'fld' and x.a[1] == mdata)
                    ctx.ob('safe', name, own, e.loc(), '' if own else 'the handler might be destroyed while it is executed')
                for h in tr:
                    if h.k == 'hold' and data in str(h.node.get('t')) and 'shared_ptr' in str(h.node.get('t')) and 'weak' not in str(h.node.get('t')):
                        viaLock = h.a and h.a[0].op in ('ret', 'pc') and str(h.a[0].a[0]).endswith('lock')
                        ctx.ob('owner', name, viaLock, h.loc(), '' if viaLock else 'another reference to the state makes a removed object look registered')
                ctx.ob('once', name, len(inv) <= 1, c.ev.loc(), '' if len(inv) <= 1 else 'the handler is called more than once')
                if q.how == 'throw':
                    continue
                aborted = any('operation_aborted' in show(a) and v is True for a, v in q.facts.items())
                reg0 = registered(q.facts, disc)
                if not inv:
                    ok = aborted or reg0 is False
                    ctx.ob('once', name + ' called', ok, c.ev.loc(), '' if ok else 'the handler of a registered object is not called')
                    re_ = [e for e in tr if rearm(e)]
                    ctx.ob('rearm', name + ' removed', not re_, c.ev.loc(), '' if not re_ else 'a removed or cancelled object waits again')
                    continue
                re_ = [e for e in tr if rearm(e)]
                ctx.ob('rearm', name + ' single', len(re_) <= 1, c.ev.loc(), '' if len(re_) <= 1 else 'more than one wait is started')
                early = [e for e in re_ if tr.index(e) < inv[0]]
                ctx.ob('rearm', name + ' order', not early, c.ev.loc(), '' if not early else 'the next wait is started before the handler is called')
                # what was read before the handler doesn't count, except that a detached object stays detached
                old = tr[inv[-1] + 1].facts if inv[-1] + 1 < len(tr) else q.facts          # the handler invalidates what it might change
                late = {a: v for a, v in q.facts.items() if a not in old or old[a] is not v}
                if not any(a.op == 'fld' and a.a[1] == disc for a in late): late.update({a: v for a, v in old.items() if a.op == 'fld' and a.a[1] == disc and v is True})
                reg = registered(late, disc)
                pv = next((v for a, v in q.facts.items() if a.op == 'fld' and a.a[1] == perf), None) if per else not err
                if re_:
                    ok = reg is True and pv is True
                    ctx.ob('rearm', name, ok, re_[0].loc(), '' if ok else ('a one-shot timer waits again' if per and pv is not True else 'waits again after an error' if pv is not True else 'waits again without deciding whether the handler has removed it'))
                    if per:
                        exp = [e for e in tr[inv[-1]:] if e.name() in ('expires_at', 'expires_after')]
                        ok = len(exp) == 1 and exp[0].name() == 'expires_at'
                        isint = lambda y: y.op == 'fld' and 'interval' in y.a[1].lower()
                        due = lambda y: y.op == 'fld' and y.a[1] in points
                        adv = [e for e in tr[inv[-1]:] if e.o is not None and due(e.o) and (e.name() == 'operator+=' or e.k == 'set' and any(due(y) for y in sources(tr, e.a[:1]))) and any(isint(y) for y in sources(tr, e.a[:1]))]
                        ok = ok and len(adv) == 1 and any(due(y) for y in sources(tr[inv[-1]:], exp[0].a))
                        oth = [e for e in tr if e.k == 'set' and e.o is not None and due(e.o) and e not in adv]
                        ctx.ob('due', name, ok and not oth, re_[0].loc(), '' if ok and not oth else 'the next due time is not the previous one plus the interval')
                else:
                    ok = reg is False or pv is False
                    ctx.ob('rearm', name + ' stopped', ok, c.ev.loc(), '' if ok else 'a registered %s does not wait again' % ('periodic timer' if per else 'observer'))
        if not n: raise AnalysisBroken('no wait of %s was found' % cls)
        # creation
        for g, ps in ents:
            if g.kind != 'ctor' or any(cls in x['t'] for x in g.ps): continue
            for p in ps:
                if p.how == 'throw': continue
                st = [e for e in p.tr if is_async(e)]
                ctx.ob('start', g.short(), len(st) == 1, at(g), '' if len(st) == 1 else '%d waits are started' % len(st))
                if not per: continue
                exp = [e for e in p.tr if e.name() in ('expires_at', 'expires_after')]
                flag = [x['n'] for x in g.ps if x['t'] == 'bool']; dur = [x['n'] for x in g.ps if 'Duration' in x['t']]
                isflag = lambda y: y.op in ('par', 'var') and y.a[-1] in flag or y.op == 'fld' and y.a[1] == perf
                isdur = lambda y: y.op in ('par', 'var') and y.a[-1] in dur or y.op == 'fld' and 'interval' in y.a[1].lower()
                pv = {v for a, v in p.facts.items() if isflag(a)}
                src = sources(p.tr, [a for e in exp for a in e.a])
                ok = len(exp) == 1 and len(pv) == 1 and any(isdur(y) for y in src) and (exp[0].name() == 'expires_after') == (pv == {False})
                ctx.ob('due', g.short(), ok, at(g), '' if ok else 'the first expiry is not one interval after the creation')
                for x in {y for e in p.tr for a in e.a for y in walk(a) if y.op == 'struct' and y.a[0] == data}:
                    v = dict(x.a[1]); fi = next((k for k in v if 'interval' in k.lower()), None)
                    for k, ok, why in ((fi, fi and isdur(v[fi]), 'the interval is %s'), (perf, perf in v and isflag(v[perf]), 'whether the timer is periodic is %s'), (disc, v.get(disc) is FALSE, 'the timer starts as detached: %s')):
                        ctx.ob('start', '%s %s' % (g.short(), k), bool(ok), at(g), '' if ok else why % show(v.get(k)))
        # other references
        n = 0
        for r in P.records.values():
            for x in r.get('fields', []):
                if data in x['t'] and 'shared_ptr' in x['t']:
                    n += 1; ok = r['q'] == cls
                    ctx.ob('owner', '%s::%s' % (r['q'], x['n']), ok, '-', '' if ok else 'keeps the state of a removed object')
    ctx.need('released', 8); ctx.need('rearm', 8); ctx.need('start', 2); ctx.need('detach', 2)
    # --- ids
    P2 = load(ctx, ['lib/src/dots.cpp'])
    svc = [(r['t'], x['n']) for r in P2.records.values() for x in r.get('fields', []) if 'map<' in x['t'] and 'dots::Timer' in x['t'] and '/lib/src/' in r['file']]
    if len(svc) != 1: raise AnalysisBroken('the table of timers was not found: %s' % svc)
    t, m = svc[0]; adds = set(); rems = set(); ctrs = set(); sets = []
    E = Engine(P2, this_cls=t)
    for f in sorted((f for f in P2.fns.values() if f.cls == t and f.b is not None and not f.imp), key=lambda f: f.u):
        if f.kind in ('ctor', 'dtor'): continue
        ctx.fns([f])
        for p in E.run(f):
            ops = [e for e in p.tr if e.o is not None and e.o.op == 'fld' and e.o.a[1] == m and e.o.a[0] is THIS and e.k in ('call', 'set')]
            pars = [x['n'] for x in f.ps]; sets += [(f, e) for e in p.tr if e.k == 'set' and e.o is not None and e.o.op == 'fld' and e.o.a[0] is THIS]
            for e in ops:
                if e.name() in ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'operator[]', 'emplace_hint'):
                    adds.add(f.u); key = e.a[0]
                    # a counter that only ever grows: its next value is made of its previous one
                    inc = [x for x in p.tr if x.k == 'set' and x.o is not None and x.o.op == 'fld' and x.o.a[0] is THIS and x.a[0] is key and key.op in ('+', 'inc') and any(y is x.o or y.op == 'fld' and y.a[1] == x.o.a[1] for y in key.a if isinstance(y, Term)) and any(y.op == 'int' and int(y.a[0]) > 0 for y in key.a if isinstance(y, Term))]
                    ctrs |= {x.o.a[1] for x in inc}
                    ok = bool(inc)
                    ctx.ob('ids', f.short() + ' fresh', ok, e.loc(), '' if ok else 'the id %s is not fresh' % show(key))
                    ok = p.val is not None and (p.val is key or show(p.val) == show(key))
                    ctx.ob('ids', f.short() + ' returned', ok, e.loc(), '' if ok else 'returns %s instead of the id' % show(p.val))
                elif e.name() in ('erase', 'extract'):
                    rems.add(f.u)
                    mine = lambda y: y.op == 'par' and pars and y.a[0] == pars[0]
                    found = lambda y: any(x.ret is y and x.name() in ('find', 'lower_bound', 'find_if', 'equal_range') and (x.name() == 'find' and any(mine(z) for z in x.a) or any(v is True and a.op in ('==', 'peq') and any(mine(z) for z in a.a) and any(mentions(z, lambda w: w is y) for z in a.a if isinstance(z, Term)) for a, v in e.facts.items())) for x in p.tr)
                    ok = len(pars) == 1 and len(e.a) == 1 and (mine(e.a[0]) or any(y.op in ('ret', 'pc') and str(y.a[0]).endswith('::find') and any(mine(z) for z in y.a if isinstance(z, Term)) for y in walk(e.a[0])) or any(found(y) for y in walk(e.a[0])))
                    ops = [x for x in ops if x.name() not in ('find', 'lower_bound', 'end', 'contains', 'count')]
                    ctx.ob('ids', f.short(), ok and len(ops) == 1, e.loc(), '' if ok and len(ops) == 1 else 'removes something else than the given id')
                elif e.name() == 'clear':
                    ok = f.ov
                    ctx.ob('ids', f.short(), bool(ok), e.loc(), '' if ok else 'removes all timers')
    for f, e in sets:
        if e.o.a[1] in ctrs and f.u not in adds: ctx.ob('ids', 'counter', False, e.loc(), 'the counter of ids is changed elsewhere')
    ctx.ob('ids', 'added', len(adds) >= 1, '-', '' if adds else 'no timer is ever added'); ctx.ob('ids', 'removed', len(rems) >= 1, '-', '' if rems else 'no timer is ever removed')
    E2 = Engine(P2, opaque=lambda f: f.cls == t or not f.q.startswith('dots::') )
    for q, us in (('dots::add_timer', adds), ('dots::remove_timer', rems)):
        f = P2.get(q); ctx.fns([f])
        for p in E2.run(f):
            c = [e for e in p.tr if e.k == 'call' and e.node.get('f') in us]
            ok = len(c) == 1 and (p.val is c[0].ret if q.endswith('add_timer') else any(a.op == 'par' and a.a[0] == f.ps[0]['n'] for a in c[0].a))
            if ok and q.endswith('add_timer'): ok = sum(1 for a in c[0].a if mentions(a, lambda y: y.op == 'par')) >= 3
            ctx.ob('ids', f.short(), ok, at(f), '' if ok else 'does not pass on the request')
    ctx.need('ids', 6)
    ctx.engine(E)
