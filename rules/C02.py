from .connection import *
from .auth import *

def check(ctx, tier):
    c = Conn(ctx, extra=['lib/src/HostTransceiver.cpp', UNIT, 'lib/src/io/auth/Digest.cpp']); P = c.P; E = c.E
    C = 'dots::Connection'
    am = one_field(P, C, 'io::AuthManager'); nf = one_field(P, C, 'optional<dots::io::Nonce>')
    fam = T('fld', THIS, am); fn = T('fld', THIS, nf)
    ctx.rule('gate', 'the host accepts a peer or advances it out of connecting only if it has no auth manager or the manager verified this peer')
    ctx.rule('args', 'the verification is given the endpoint of this channel, the announced client name, the nonce of this connection, the peer nonce and the peer response')
    ctx.rule('refuse', 'a failed verification is answered without acceptance and ends in an exception')
    ctx.rule('nonce', 'the challenge of the connection comes from the auth manager asked about this remote endpoint')
    ctx.rule('hello', 'the hello announces the challenge value and that authentication is required exactly when a challenge exists')
    ctx.rule('fixed', 'auth manager and challenge are assigned when reception starts and nowhere else')
    ctx.rule('wired', 'the host hands its own auth manager to every connection it accepts')
    ctx.rule('secret', 'a rule with a secret yields its decision only if the digest over challenge, peer nonce, client name and secret equals the response')
    ctx.rule('missing', 'a rule with a secret denies when the response or the peer nonce is missing')
    ctx.rule('digest', 'the digest is computed over the challenge, the peer nonce, the user name and the secret')
    ctx.rule('same-rules', 'the endpoint based verification passes endpoint address, challenge, client name, peer nonce and response on unchanged')
    # --- gate
    for cur, msg, props, h, ps, src in c.automaton(ctx):
        if not msg.endswith('DotsMsgConnect') or cur != 'connecting': continue
        ctx.fns([h]); par = T('par', h.ps[0]['n'])
        for p in ps:
            def ok(e):
                f = e.facts
                if f.get(fam) is False: return True
                return any(v is True and a.op in ('ret', 'pc') and a.a[0] == A + '::verifyAuthentication' for a, v in f.items())
            for i, e, n in c.state_sets(p):
                if n != 'closed': ctx.ob('gate', '%s -> %s' % (h.q.rsplit('::', 1)[-1], n), ok(e), e.loc(), 'the peer is admitted without verification; ' + pathstr(p))
            for i, e, v in c.sends(p):
                if v is not None and struct_type(v) == 'DotsMsgConnectResponse':
                    a = sfield(v, 'accepted')
                    denies = a in (T('some', FALSE), NONE, NULL)
                    if a is not None and a.op == 'some' and e.facts.get(a.a[0]) is False: denies = True
                    ctx.ob('gate', 'response', denies or ok(e), e.loc(), 'the peer is told it is accepted without verification; ' + pathstr(p))
            failed = any(v is False and a.op in ('ret', 'pc') and a.a[0] == A + '::verifyAuthentication' for a, v in p.facts.items())
            if failed:
                ss = c.state_sets(p)
                ctx.ob('refuse', h.q.rsplit('::', 1)[-1], (p.how == 'throw' or bool(ss) and ss[-1][2] == 'closed') and not [1 for i, e, n in ss if n != 'closed'], at(h), 'a refused peer is kept; ' + pathstr(p))
            for e in p.tr:
                if e.k == 'call' and e.q == A + '::verifyAuthentication' and len(e.a) == 5:
                    ep, name, n, cn, dig = e.a
                    f = e.facts
                    ctx.ob('args', 'endpoint', mentions(ep, lambda x: x.op in ('ret', 'pc') and x.a[0].endswith('Channel::remoteEndpoint')), e.loc(), show(ep))
                    ctx.ob('args', 'client name', has(name, par, 'clientName'), e.loc(), show(name))
                    ctx.ob('args', 'nonce', mentions(n, lambda x: x is fn) or f.get(fn) is False, e.loc(), 'nonce argument is %s; %s' % (show(n), pathstr(p)))
                    ctx.ob('args', 'peer nonce', has(cn, par, 'cnonce') or f.get(T('fld', par, 'cnonce')) is False, e.loc(), '%s; %s' % (show(cn), pathstr(p)))
                    ctx.ob('args', 'response', has(dig, par, 'authChallengeResponse') or f.get(T('fld', par, 'authChallengeResponse')) is False, e.loc(), '%s; %s' % (show(dig), pathstr(p)))
    ctx.need('gate', 2); ctx.need('refuse', 1); ctx.need('args', 5)
    # --- challenge
    f, ps = c.paths('asyncReceive')
    ctx.fns([f])
    apar = [p['n'] for p in f.ps if 'AuthManager' in p['t']]
    for p in ps:
        hellos = [(i, e, v) for i, e, v in c.sends(p) if v is not None and struct_type(v) == 'DotsMsgHello']
        for i, e, v in hellos:
            val = None; cur = None
            for x in p.tr[:i]:
                if x.k == 'set' and x.o is fn: cur = x.a[0]
            sa = [x for x in p.tr[:i] if x.k == 'set' and x.o is fam]
            ctx.ob('fixed', 'auth manager', bool(sa) and sa[-1].a[0] is T('par', apar[0]), e.loc(), pathstr(p))
            ctx.ob('nonce', 'set before hello', cur is not None, e.loc(), 'the hello is sent before a challenge was determined; ' + pathstr(p))
            if cur is None: continue
            has_mgr = p.facts.get(T('par', apar[0]))
            req = [x for x in p.tr[:i] if x.k == 'call' and x.q == A + '::requiresAuthentication']
            if has_mgr is True or has_mgr is None:
                ctx.ob('nonce', 'asked', has_mgr is True and len(req) == 1 and mentions(cur, lambda x: x is req[0].ret) and mentions(req[0].a[0], lambda x: x.op in ('ret', 'pc') and x.a[0].endswith('Channel::remoteEndpoint')), e.loc(), 'challenge is %s; %s' % (show(cur), pathstr(p)))
            auth = sfield(v, 'authenticationRequired'); ch = sfield(v, 'authChallenge')
            present = None
            if cur.op in ('null', 'none'): present = False
            elif cur.op == 'some': present = True
            else: present = p.facts.get(cur)
            if present is None: present = p.facts.get(fn)
            if present is True:
                ctx.ob('hello', 'challenge', auth is T('some', TRUE) and ch is not None and mentions(ch, lambda x: x is cur or x is fn), e.loc(), 'hello carries challenge %s required %s; %s' % (show(ch), show(auth), pathstr(p)))
            elif present is False:
                ctx.ob('hello', 'no challenge', auth in (NONE, T('some', FALSE)), e.loc(), pathstr(p))
            else: ctx.ob('hello', 'presence tested', False, e.loc(), 'the hello does not depend on whether a challenge exists; ' + pathstr(p))
    ctx.need('hello', 2)
    # --- assigned nowhere else
    for g, gps in c.roots(ctx):
        if g.u == f.u: continue
        for p in gps:
            for e in p.tr:
                if e.k == 'set' and e.o in (fam, fn) or (e.k == 'call' and e.o in (fam, fn)):
                    ctx.ob('fixed', g.q.rsplit('::', 1)[-1], False, e.loc(), pathstr(p))
    # --- the host wires its manager
    H = 'dots::HostTransceiver'
    hf = one_field(P, H, 'io::AuthManager')
    Eh = Engine(P, this_cls=H, opaque={C + '::asyncReceive'})
    for g in P.fns.values():
        if g.b is None or not (g.clsq or '').startswith('dots::') or (g.clsq == C): continue
        if not any(n['k'] == 'call' and n.get('q') == C + '::asyncReceive' for n in nodes(g.b)): continue
        ctx.fns([g])
        for p in Eh.run(g):
            for e in p.tr:
                if e.k == 'call' and e.q == C + '::asyncReceive':
                    ctx.ob('wired', g.q, mentions(e.a[1], lambda x: under_this(x, hf)), e.loc(), 'the connection is started with auth manager %s' % show(e.a[1]))
    ctx.need('wired', 1)
    # --- the legacy manager
    Ev = Engine(P, opaque=lambda g: g.q == L + '::findMatchingRules' or g.q.startswith('dots::io::Digest'), this_cls=L, rec_loop=True)
    for g in P.some(L + '::verifyResponse'):
        ctx.fns([g]); par = T('par', g.ps[2]['n']); npar = T('par', g.ps[1]['n'])
        n = 0
        for p in Ev.run(g):
            rs = set(a.a[0] for a in p.facts if is_fld(a, 'secret'))
            for r in rs:
                if p.facts.get(T('fld', r, 'secret')) is not True: continue
                eq = False
                for a, v in p.facts.items():
                    if v is True and a.op in ('==', 'peq'):
                        for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                            dx = [d for d in digests(x) if len(d.a) == 2]; dy = [d for d in digests(y) if len(d.a) == 5]
                            if dx and dy and has(dx[0], par, 'authChallengeResponse'):
                                d = dy[0]
                                if mentions(d.a[1], lambda t: t is npar) and has(d.a[2], par, 'cnonce') and has(d.a[3], par, 'clientName') and has(d.a[4], r, 'secret'): eq = True
                uses = p.val is not None and has(p.val, r, 'accept')
                acc_true = p.facts.get(T('peq', T('fld', r, 'accept'), TRUE)) is True or p.facts.get(T('deref', T('fld', r, 'accept'))) is True
                if uses or (p.val is TRUE and acc_true):
                    n += 1
                    ctx.ob('secret', g.q.rsplit('::', 1)[-1], eq, at(g), 'a rule with a secret decides without the digest having been compared; ' + pathstr(p))
                miss = any(v is False and (pcname(a) == '_hasProperties' or (is_fld(a, 'authChallengeResponse') or is_fld(a, 'cnonce'))) for a, v in p.facts.items())
                if miss: ctx.ob('missing', g.q.rsplit('::', 1)[-1], p.how == 'throw' or p.val is FALSE, at(g), 'a response without proof is not denied; ' + pathstr(p))
        ctx.need('secret', 1)
    for g in P.some(L + '::verifyResponse'):
        for p in Ev.run(g):
            dec = [a for a in p.facts if is_fld(a, 'accept')]
            if p.how == 'ret' and p.val is not None and mentions(p.val, lambda x: is_fld(x, 'accept')):
                rs = [x.a[0] for x in walk(p.val) if is_fld(x, 'accept')]
                ctx.ob('secret', 'secret looked at', all(p.facts.get(T('fld', r, 'secret')) is not None for r in rs), at(g), 'the decision of a rule is used without looking at whether it has a secret; ' + pathstr(p))
    Ed = Engine(P, opaque=foreign(P, L, also=(L + '::verifyResponse',)), this_cls=L)
    for g in [x for x in P.fns.values() if x.clsq == L and x.q == L + '::verifyAuthentication' and x.b is not None]:
        ctx.fns([g]); pn = [T('par', x['n']) for x in g.ps]
        for p in Ed.run(g):
            for e in p.tr:
                if e.k == 'call' and e.q == L + '::verifyResponse':
                    m = e.a[2]
                    conv = [x.ret for x in p.tr if x.k == 'call' and any(mentions(a, lambda t: t is pn[0]) for a in x.a)]
                    ok = mentions(e.a[0], lambda x: x is pn[0] or x in conv) and mentions(e.a[1], lambda x: x is pn[2])
                    ok = ok and all(v is not None and mentions(v, lambda x, t=t: x is t) for v, t in ((sfield(m, 'clientName'), pn[1]), (sfield(m, 'cnonce'), pn[3]), (sfield(m, 'authChallengeResponse'), pn[4])))
                    ctx.ob('same-rules', 'overload %d' % g.line, ok, e.loc(), pathstr(p))
    ctx.need('same-rules', 2)
    # --- digest
    D = 'dots::io::Digest'
    Eg = Engine(P, inline=lambda g: g.q.startswith(D) and g.b is not None)
    k = 0
    for g in [x for x in P.fns.values() if x.clsq == D and x.kind == 'ctor' and len(x.ps) == 4]:
        ctx.fns([g])
        for p in Eg.run(g):
            fed = [a for e in p.tr if e.k in ('call', 'ctor') and ('picosha2' in e.q or e.q.startswith(D)) for a in e.a]
            for x in g.ps:
                k += 1
                ctx.ob('digest', 'parameter %s of the %s' % (x['n'], 'overload taking a %s' % g.ps[1]['t']), any(mentions(a, lambda t: t is T('par', x['n'])) for a in fed), at(g), 'the digest does not depend on the parameter; ' + pathstr(p))
    ctx.need('digest', 8)
    ctx.assume.append('the hash is collision resistant and random_device yields unpredictable challenges (the strength of the primitives is outside the source)')
    ctx.engine(E); ctx.engine(Ev); ctx.engine(Eg)
