from .auth import *

def schemes(p, ep):
    """valuation of the scheme comparisons of the endpoint parameter on the path"""
    out = {}
    for a, v in p.facts.items():
        if a.op in ('==', 'peq'):
            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if y.op == 'str' and mentions(x, lambda t: t.op in ('pc', 'ret') and t.a[0].endswith('::scheme')): out[y.a[0]] = v
    yes = [k for k, v in out.items() if v]
    if yes: return yes[0]
    return None if {k for k, v in out.items() if not v} >= {'tcp', 'ws', 'uds'} else 'unknown:%s' % sorted(out)

def check(ctx, tier):
    P = load(ctx, [UNIT]); ctx.rule('order', 'rules are kept in a container ordered by ascending priority that keeps rules of equal priority')
    ctx.rule('append', 'matching rules are collected in container order')
    ctx.rule('match', 'a rule is collected exactly if its client name is empty or equal to the announced one and the remote address lies in its network')
    ctx.rule('first', 'the first matching rule with a decision decides: the loop ends there and its decision is returned')
    ctx.rule('default', 'the default policy is used only when no matching rule decided, and accepts when it is unset')
    ctx.rule('update', 'creating, changing or removing a rule or the policy is reflected in the rules the decisions are taken from')
    ctx.rule('schemes', 'tcp and websocket peers are subject to the rules, local socket peers are trusted, any other scheme follows the default policy')
    ctx.rule('challenge', 'a challenge is required iff the first accepting rule for the address has a secret')
    ctx.rule('network', 'addresses are compared as host networks of full prefix length, and only within the same address family')
    rec = P.records_q.get(L)
    rf = [f for r in rec for f in r['fields'] if 'map<' in f['t'] and 'DotsAuthentication' in f['t']]
    if len(rf) != 1: raise AnalysisBroken('rule container not found')
    rf = rf[0]
    ctx.ob('order', rf['n'], rf['t'].startswith('std::multimap<') and 'std::greater' not in rf['t'], 'lib/include/dots/io/auth/LegacyAuthManager.h', 'rules are kept in %s' % rf['t'])
    RULES = T('fld', THIS, rf['n'])
    df = one_field(P, L, 'std::optional<bool>'); DEF = T('fld', THIS, df)
    out = foreign(P, L); out2 = foreign(P, L, also=(L + '::findMatchingRules',)); out3 = foreign(P, L, also=(L + '::verifyResponse',))
    # matching
    E = Engine(P, opaque=out, this_cls=L, rec_loop=True)
    for g in P.some(L + '::findMatchingRules'):
        ctx.fns([g]); addr, name = [T('par', x['n']) for x in g.ps][:2]
        for p in E.run(g):
            if any(e.k == 'catch' for e in p.tr) or p.how == 'throw': continue
            app = [e for e in p.tr if e.k == 'call' and e.name() in ('emplace_back', 'push_back', 'insert', 'emplace', 'push_front', 'emplace_front') and any(mentions(a, lambda x: x.op == 'elem' and mentions(x, lambda t: t is RULES)) for a in e.a)]
            looked = [x for a in p.facts for x in walk(a) if x.op == 'elem' and mentions(x, lambda t: t is RULES)]
            if not looked and not app: continue
            def f_name():
                for a, v in p.facts.items():
                    if (pcname(a) == 'empty' or a.op == 'empty') and has(a, None, 'clientName') and v: return True
                    if a.op in ('==', 'peq') and has(a, None, 'clientName') and mentions(a, lambda x: x is name) and v: return True
                return False
            def not_name():
                r = [v for a, v in p.facts.items() if a.op in ('==', 'peq') and has(a, None, 'clientName') and mentions(a, lambda x: x is name)]
                return bool(r) and not r[0]
            def net(val):
                for a, v in p.facts.items():
                    if v is not val or a.op not in ('pc', 'ret') : continue
                    if not a.a[0].endswith('IpNetwork::isSubnetOf'): continue
                    if a.op == 'pc': o, x = a.a[1], a.a[2]
                    else:
                        ev = [e for e in p.tr if e.ret is a]
                        if not ev: continue
                        o, x = ev[0].o, ev[0].a[0]
                    if mentions(o, lambda t: t is addr) and has(x, None, 'network') and has(x, None, 'prefix'): return True
                return False
            if app:
                ctx.ob('match', 'collected', f_name() and net(True), app[0].loc(), 'a rule is collected without client name and network having been matched; ' + pathstr(p))
                ok = app[0].name().endswith('_back') or any(mentions(a, lambda x: x.op in ('pc', 'ret') and x.a[0].rsplit('::', 1)[-1] in ('end', 'cend')) for a in app[0].a)
                ctx.ob('append', app[0].name(), ok, app[0].loc(), 'matching rules are not collected in order')
            else:
                ctx.ob('match', 'not collected', not_name() or net(False), at(g), 'a matching rule is skipped; ' + pathstr(p))
            for e in p.tr:
                if e.k == 'loopexit': ctx.ob('match', 'all rules examined', e.q == 'next', e.loc(), 'the scan ends before all rules were examined; ' + pathstr(p))
    ctx.need('match', 3); ctx.need('append', 1)
    # decision
    Ev = Engine(P, opaque=out2, this_cls=L, rec_loop=True)
    for g in P.some(L + '::verifyResponse'):
        ctx.fns([g]); par = T('par', g.ps[2]['n'])
        for p in Ev.run(g):
            for e in p.tr:
                if e.k == 'call' and e.q == L + '::findMatchingRules':
                    ctx.ob('first', 'looked up', mentions(e.a[0], lambda x: x is T('par', g.ps[0]['n'])) and has(e.a[1], par, 'clientName'), e.loc(), show(e.a[1]))
            if p.how != 'ret': continue
            rs = set(x.a[0] for a in p.facts for x in walk(a) if is_fld(x, 'secret') or is_fld(x, 'accept'))
            lx = [e for e in p.tr if e.k == 'loopexit']
            decided = False
            for r in rs:
                fs, fa = T('fld', r, 'secret'), T('fld', r, 'accept')
                sec, acc = p.facts.get(fs), p.facts.get(fa)
                dig = [v for a, v in p.facts.items() if a.op in ('==', 'peq') and digests(a)]
                miss = any(v is False and (pcname(a) == '_hasProperties' or is_fld(a, 'authChallengeResponse') or is_fld(a, 'cnonce')) for a, v in p.facts.items())
                if acc is True and (sec is False or (sec is True and dig and dig[0])):
                    decided = True
                    same = has(p.val, r, 'accept') or p.val in (TRUE, FALSE) and p.facts.get(T('peq', fa, TRUE)) is (p.val is TRUE) or p.val in (TRUE, FALSE) and p.facts.get(T('deref', fa)) is (p.val is TRUE)
                    ctx.ob('first', 'rule decides', same and bool(lx) and lx[-1].q in ('break', 'return'), at(g), 'the deciding rule does not end the search with its decision (returns %s, loop left by %s); %s' % (show(p.val), [e.q for e in lx], pathstr(p)))
                elif sec is True and miss:
                    decided = True
                    ctx.ob('first', 'missing response decides', p.val is FALSE and bool(lx) and lx[-1].q in ('break', 'return'), at(g), pathstr(p))
                elif sec is not None or acc is not None:
                    ctx.ob('first', 'undecided goes on', bool(lx) and lx[-1].q == 'next', at(g), 'a rule that does not decide ends the search; ' + pathstr(p))
            if not decided:
                d = p.facts.get(DEF)
                ok = (d is True and mentions(p.val, lambda x: x is DEF)) or (d is False and p.val is TRUE) or (p.val in (TRUE, FALSE) and p.facts.get(T('deref', DEF)) is (p.val is TRUE)) or p.facts.get(T('peq', DEF, p.val)) is True or (p.val is TRUE and p.facts.get(T('peq', DEF, FALSE)) is False) or (p.val.op == 'not' and p.val.a[0] is T('peq', DEF, FALSE))
                ctx.ob('default', 'no rule decided', ok, at(g), 'without a deciding rule the result is %s; %s' % (show(p.val), pathstr(p)))
    ctx.need('first', 4); ctx.need('default', 2)
    # challenge + schemes
    for g in [x for x in P.fns.values() if x.clsq == L and x.q == L + '::requiresAuthentication' and x.b is not None]:
        ctx.fns([g])
        byaddr = not any('Endpoint' in x['t'] for x in g.ps)
        for p in Ev.run(g):
            if p.how != 'ret': continue
            if not byaddr:
                sch = schemes(p, None)
                asked = [e for e in p.tr if e.k == 'call' and e.q == L + '::findMatchingRules']
                some = p.val.op == 'some'; none = p.val.op in ('null', 'none')
                if sch in ('tcp', 'ws'):
                    ctx.ob('schemes', 'challenge ' + sch, len(asked) == 1 and mentions(asked[0].a[0], lambda x: True), at(g), 'the rules are not consulted; ' + pathstr(p))
                elif sch == 'uds': ctx.ob('schemes', 'challenge uds', none, at(g), pathstr(p))
                elif sch is None:
                    pol = p.facts.get(T('peq', DEF, TRUE)); pol = p.facts.get(T('deref', DEF)) if pol is None else pol
                    if pol is None and p.facts.get(DEF) is False: pol = False
                    ctx.ob('schemes', 'challenge other', pol is not None and (none if pol else some), at(g), 'an unknown scheme is not subject to the default policy; ' + pathstr(p))
                else: ctx.ob('schemes', 'challenge %s' % sch, False, at(g), 'scheme not dispatched on; ' + pathstr(p))
            accs = [(a.a[0].a[0] if a.op == 'peq' else a.a[0], v) for a, v in p.facts.items() if (a.op == 'peq' and is_fld(a.a[0], 'accept') and a.a[1] is TRUE) or (a.op == 'deref' and is_fld(a.a[0], 'accept'))]
            if byaddr:
                lx = [e for e in p.tr if e.k == 'loopexit']
                for r, v in accs:
                    r = r.a[0] if is_fld(r, 'accept') else r
                    sec = T('fld', r, 'secret')
                    if v: ctx.ob('challenge', 'accepting rule', (p.val is sec or p.val in (TRUE, FALSE) and p.facts.get(sec) is (p.val is TRUE)) and bool(lx) and lx[-1].q in ('return', 'break'), at(g), 'returns %s; %s' % (show(p.val), pathstr(p)))
                    else: ctx.ob('challenge', 'other rule', p.val is FALSE and bool(lx) and lx[-1].q == 'next', at(g), pathstr(p))
    ctx.need('challenge', 2)
    Ed = Engine(P, opaque=out3, this_cls=L)
    for g in [x for x in P.fns.values() if x.clsq == L and x.q == L + '::verifyAuthentication' and x.b is not None]:
        ctx.fns([g]); ep = T('par', g.ps[0]['n'])
        for p in Ed.run(g):
            if p.how != 'ret': continue
            sch = schemes(p, None); calls = [e for e in p.tr if e.k == 'call' and e.q == L + '::verifyResponse']
            if sch in ('tcp', 'ws'):
                conv = [e for e in p.tr if e.k == 'call' and any(mentions(a, lambda x: x.op in ('pc', 'ret') and x.a[0].endswith('::host') and mentions(x, lambda t: t is ep)) for a in e.a)]
                ok = len(calls) == 1 and p.val is calls[0].ret and bool(conv) and (mentions(calls[0].a[0], lambda x: x is conv[0].ret) or conv[0] is calls[0])
                ctx.ob('schemes', 'verify ' + sch, ok, at(g), 'the rules do not decide about the host address; ' + pathstr(p))
            elif sch == 'uds': ctx.ob('schemes', 'verify uds', p.val is TRUE, at(g), pathstr(p))
            elif sch is None:
                d = p.facts.get(DEF)
                ok = (d is True and mentions(p.val, lambda x: x is DEF)) or (d is False and p.val is FALSE) or (p.val in (TRUE, FALSE) and p.facts.get(T('peq', DEF, TRUE)) is (p.val is TRUE)) or p.val is T('peq', DEF, TRUE)
                ctx.ob('schemes', 'verify other', ok, at(g), 'an unknown scheme is not denied by default; ' + pathstr(p))
            else: ctx.ob('schemes', 'verify %s' % sch, False, at(g), pathstr(p))
    ctx.need('schemes', 8)
    # updates
    Eu = Engine(P, opaque=out, this_cls=L)
    subs = {}
    for g in P.fns.values():
        if g.clsq == L and g.b is not None and g.ps and 'Event<' in g.ps[0]['t']:
            subs['Policy' if 'Policy' in g.ps[0]['t'] else 'Rule'] = g
    if set(subs) != {'Policy', 'Rule'}: raise AnalysisBroken('event handlers of the auth manager not found')
    g = subs['Rule']; ctx.fns([g])
    def is_e(x): return mentions(x, lambda t: t is T('par', g.ps[0]['n']))
    for p in Eu.run(g):
        cr, up, rm = ([v for a, v in p.facts.items() if pcname(a) == n] for n in ('isCreate', 'isUpdate', 'isRemove'))
        muts = [e for e in p.tr if e.k in ('call', 'set') and e.o is not None and mentions(e.o, lambda t: t is RULES)]
        found = [v for a, v in p.facts.items() if pcname(a) in ('_equal', '_same')]
        end = [v for a, v in p.facts.items() if a.op == '==' and mentions(a, lambda x: x.op == 'iter') and mentions(a, lambda x: x.op in ('pc', 'ret') and x.a[0].endswith('end'))]
        hit = found and found[0] and not (end and end[0])
        def keyed(): return all(pcname(a) == '_same' or any(mentions(x, lambda t: t.op in ('ret', 'pc') and t.a[0].rsplit('::', 1)[-1] in ('_KeyProperties', '_keyProperties')) for x in a.a[2:] if isinstance(x, Term)) for a, v in p.facts.items() if pcname(a) in ('_equal', '_same'))
        if cr and cr[0]:
            ins = [e for e in muts if e.name() in ('emplace', 'insert')]
            pv = [v for a, v in p.facts.items() if is_fld(a, 'priority')]
            ok = len(ins) == 1 and any(is_e(a) for a in ins[0].a) and (not pv or not pv[0] or any(has(a, None, 'priority') for a in ins[0].a))
            ctx.ob('update', 'rule created', ok, at(g), pathstr(p))
        elif up and up[0] and hit:
            w = [e for e in muts if (e.name() in ('_copy', '_assign', 'operator=', '_merge') or e.k == 'set') and any(is_e(a) for a in e.a)]
            ctx.ob('update', 'rule changed', bool(w) and keyed(), at(g), 'the change is not applied to the stored rule; ' + pathstr(p))
        elif rm and rm[0] and hit:
            ctx.ob('update', 'rule removed', any(e.name() == 'erase' for e in muts) and keyed(), at(g), 'the removed rule stays in force; ' + pathstr(p))
        else: ctx.ob('update', 'no other effect', not muts, at(g), pathstr(p))
    g = subs['Policy']; ctx.fns([g])
    for p in Eu.run(g):
        rm = [v for a, v in p.facts.items() if pcname(a) == 'isRemove']
        sets = [e for e in p.tr if (e.k == 'set' or e.k == 'call') and e.o is DEF]
        val = [v for a, v in p.facts.items() if is_fld(a, 'accept')]
        if rm and rm[0]: ctx.ob('update', 'policy removed', bool(sets) and sets[-1].k == 'set' and sets[-1].a[0] in (NULL, NONE), at(g), pathstr(p))
        elif rm and val and val[0]: ctx.ob('update', 'policy set', bool(sets) and sets[-1].k == 'set' and has(sets[-1].a[0], None, 'accept'), at(g), pathstr(p))
    ctx.need('update', 5)
    # the handlers are subscribed
    for which, g in subs.items():
        called = False
        for c in P.fns.values():
            if c.clsq == L and c.kind == 'ctor' and not c.imp:
                for n in nodes([c.b, getattr(c, 'inits', None)]):
                    if n['k'] == 'call' and n.get('f') == g.u: called = True
                    if n.get('k') in ('ref', 'fnref') and n.get('f') == g.u: called = True
        ctx.ob('update', '%s events subscribed' % which, called, at(g), 'no constructor subscribes the handler')
    # networks
    N = 'dots::tools::IpNetwork'
    Q = load(ctx, ['lib/src/tools/IpNetwork.cpp'])
    En = Engine(Q, inline=lambda g: False if g.q.endswith('isStrictSubnetOf') else g.q.startswith(N))
    for g in [x for x in Q.fns.values() if x.clsq == N and x.kind == 'ctor' and len(x.ps) == 1 and 'ip::address' in x.ps[0]['t'] and x.b is not None]:
        for p in En.run(g):
            ctx.fns([g])
            v4 = [v for a, v in p.facts.items() if pcname(a) == 'is_v4']; v4 = v4[0] if v4 else not [v for a, v in p.facts.items() if pcname(a) == 'is_v6'][0]
            mk = [e for e in p.tr if e.k == 'call' and 'make_network_v' in e.q] + [x for e in p.tr for a in e.a for x in walk(a) if x.op in ('pc',) and 'make_network_v' in x.a[0]]
            for e in mk:
                q = e.q if hasattr(e, 'q') else e.a[0]; args = e.a if hasattr(e, 'q') else e.a[2:-1]
                ln = next((show(a) for a in args[1:]), '')
                ctx.ob('network', 'address to network v%d' % (4 if v4 else 6), q.endswith('v4' if v4 else 'v6') and (ln in ('32', '128') and int(ln) == (32 if v4 else 128) or ('DefaultV4PrefixLength' if v4 else 'DefaultV6PrefixLength') in ln), at(g), '%s with prefix %s' % (q, ln))
    for g in Q.some(N + '::isSubnetOf'):
        ctx.fns([g])
        for p in En.run(g):
            idx = [v for a, v in p.facts.items() if a.op == '==' and mentions(a, lambda x: x.op == 'pc' and x.a[0].endswith('index'))]
            if idx and not idx[0]: ctx.ob('network', 'family mismatch', p.val is FALSE, at(g), pathstr(p))
            elif idx:
                st = [v for a, v in p.facts.items() if a.op in ('ret', 'pc') and a.a[0].endswith('isStrictSubnetOf')]
                eqn = [v for a, v in p.facts.items() if a.op == '==' and mentions(a, lambda x: is_fld(x, one_field(Q, N, 'variant'))) and not mentions(a, lambda x: x.op == 'pc' and x.a[0].endswith('index'))]
                if st and st[0]: ctx.ob('network', 'strict subnet', p.val is TRUE, at(g), pathstr(p))
                elif st and eqn: ctx.ob('network', 'equal network', p.val is (TRUE if eqn[0] else FALSE), at(g), pathstr(p))
                else: ctx.ob('network', 'containment', mentions(p.val, lambda x: x.op == '=='), at(g), pathstr(p))
    for g in Q.some(N + '::isStrictSubnetOf'):
        ctx.fns([g])
        for p in En.run(g):
            idx = [v for a, v in p.facts.items() if a.op == '==' and mentions(a, lambda x: x.op == 'pc' and x.a[0].endswith('index'))]
            if idx and not idx[0]: ctx.ob('network', 'family mismatch', p.val is FALSE, at(g), pathstr(p))
            else:
                sub = [x for x in walk(p.val) if x.op in ('pc', 'ret') and x.a[0].endswith('is_subnet_of')] + [a for a in p.facts if a.op in ('pc', 'ret') and a.a[0].endswith('is_subnet_of')]
                ok = bool(sub) and sub[0].op == 'pc' and mentions(sub[0].a[1], lambda x: x is THIS) and any(mentions(x, lambda t: t is T('par', g.ps[0]['n'])) for x in sub[0].a[2:] if isinstance(x, Term))
                ctx.ob('network', 'direction', ok, at(g), 'the address is not tested against the rule network; ' + pathstr(p))
    ctx.need('network', 4)
    ctx.engine(E); ctx.engine(Ev)
