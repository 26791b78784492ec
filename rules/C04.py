from .connection import *

def check(ctx, tier):
    c = Conn(ctx); E = c.E
    ctx.rule('monotone', 'every write of the connection state moves it forward (suspended<connecting<early_subscribe<connected<closed); a write of closed happens only when the connection is not yet closed')
    ctx.rule('reported', 'every state change is followed by exactly one call of the owner\'s transition callback before the next change or the end of the path')
    ctx.rule('cause', 'the transition callback receives the error that caused the change, and no error otherwise')
    ctx.rule('error-ends', 'whatever error is handed to the connection, handling it leaves the connection closed')
    ctx.rule('announce', 'an error on a connected connection is announced to the peer before closing; failure to announce does not prevent closing')
    ctx.rule('stages', 'the handshake reaches connected on every accepting path, for both sides, and after that no handshake message is expected')
    ctx.rule('start', 'reception starts only from the suspended state')
    ctx.rule('never-started', 'a connection that never started receiving has no callback: calling it is guarded')
    ctx.rule('dtor', 'destroying a connection that is not closed closes it')
    roots = c.roots(ctx)
    auto = c.automaton(ctx)
    entry = {}
    for cur, msg, props, h, ps, src in auto: entry.setdefault(h.u, set()).add(cur)
    direct = {c.rx.u}
    written = set()
    def entry_states(g, p):
        """states the connection can be in when the path starts"""
        if g.u == c.start.u: return {'suspended'} if p.facts.get(c.is_state('suspended')) is True else set(RANK)
        st = set(RANK)
        if g.u in entry and not g.acc == 0: st = set(x for x in entry[g.u] if x)
        return st
    for g, ps in roots:
        ctx.fns([g]); gn = g.q.rsplit('::', 1)[-1]
        for p in ps:
            ss = c.state_sets(p); ti = c.trans_invokes(p)
            # what is known about the state on entry: branch facts on the state before the first write
            poss = entry_states(g, p)
            f0 = ss[0][1].facts if ss else p.facts
            for s in list(poss):
                if f0.get(c.is_state(s)) is False: poss.discard(s)
            for s in list(RANK):
                if f0.get(c.is_state(s)) is True: poss &= {s}
            cur = poss
            if g.kind == 'dtor' : pass
            for n, (i, e, new) in enumerate(ss):
                if new is None:
                    ctx.ob('monotone', gn, False, e.loc(), 'the connection state is set to a value that is not a state constant; ' + pathstr(p)); continue
                bad = [s for s in cur if RANK[s] >= RANK[new]]
                ctx.ob('monotone', '%s->%s' % (gn, new), not bad, e.loc(), 'state %s can be set while the connection is already in %s; %s' % (new, sorted(bad), pathstr(p)))
                cur = {new}
                end = ss[n + 1][0] if n + 1 < len(ss) else len(p.tr)
                inv = [x for j, x in ti if i < j < end]
                absent = p.facts.get(T('fld', THIS, c.trans)) is False
                ctx.ob('reported', '%s->%s' % (gn, new), len(inv) == 1 or (not inv and absent), e.loc(), 'the owner is told %d times; %s' % (len(inv), pathstr(p)))
                for x in inv:
                    ctx.ob('never-started', gn, 'suspended' not in poss or g.u == c.start.u or x.facts.get(T('fld', THIS, c.trans)) is True, x.loc(), 'the callback is called although reception may never have been started; ' + pathstr(p))
                for x in inv: ctx.ob('reported', 'callback args', len(x.a) >= 1 and x.a[0] is THIS, x.loc(), pathstr(p))
            first = ss[0][0] if ss else len(p.tr)
            early = [x for j, x in ti if j < first]
            ctx.ob('reported', gn + ' no spurious report', not early, early[0].loc() if early else at(g), 'the owner is told about a state change that did not happen; ' + pathstr(p))
            # error entry
            if g.u == c.err.u:
                par = T('par', g.ps[0]['n'])
                last = ss[-1][2] if ss else None
                was_closed = p.facts.get(c.is_state('closed')) is True
                ctx.ob('error-ends', 'error entry', last == 'closed' or was_closed, at(g), 'the path leaves the connection open; ' + pathstr(p))
                if was_closed: continue
                if p.facts.get(c.is_state('connected')) is True:
                    msgs = [s for s in c.sends(p) if s[2] is not None and struct_type(s[2]) == 'DotsMsgError']
                    ctx.ob('announce', 'error entry', bool(msgs) and all(m[0] < first for m in msgs), at(g), 'no error message is sent to the peer before closing; ' + pathstr(p))
                for j, x in ti:
                    ctx.ob('cause', 'error entry', len(x.a) >= 2 and mentions(x.a[1], lambda t: t is par), x.loc(), 'the owner is not given the error; ' + pathstr(p))
            elif g.u in entry or g.u == c.start.u:
                for n, (i, e, new) in enumerate(ss):
                    if new == 'closed': continue
                    end = ss[n + 1][0] if n + 1 < len(ss) else len(p.tr)
                    for j, x in ti:
                        if i < j < end: ctx.ob('cause', '%s->%s' % (gn, new), len(x.a) >= 2 and x.a[1] in (NULL,), x.loc(), 'a successful change is reported with an error; ' + pathstr(p))
            if g.u == c.start.u:
                if ss or c.sends(p) or any(e.k == 'call' and e.q.startswith('dots::io::Channel::') for e in p.tr):
                    ctx.ob('start', 'from suspended', f0.get(c.is_state('suspended')) is True, at(g), 'reception is started without the connection being suspended; ' + pathstr(p))
                    names = [s[2] for s in ss]
                    ctx.ob('start', 'connecting', names == ['connecting'] and p.how == 'ret', at(g), pathstr(p))
                else: ctx.ob('start', 'refused otherwise', p.how == 'throw', at(g), pathstr(p))
            if g.kind == 'dtor':
                if p.facts.get(c.is_state('closed')) is not True:
                    ctx.ob('dtor', 'closes', bool(ss) and ss[-1][2] == 'closed', at(g), pathstr(p))
    # exceptions in the announcement do not prevent closing
    E2 = Engine(c.P, may_throw=lambda e: e.k == 'call' and e.q == 'dots::io::Channel::transmit', max_states=20000)
    for p in E2.run(c.err):
        if p.facts.get(c.is_state('closed')) is True: continue
        ss = c.state_sets(p)
        ctx.ob('announce', 'closes despite send failure', bool(ss) and ss[-1][2] == 'closed', at(c.err), pathstr(p))
    # stages
    have = {}
    for cur, msg, props, h, ps, src in auto:
        for p in ps:
            if p.how != 'ret': continue
            ss = c.state_sets(p); nxt = ss[-1][2] if ss else cur
            ex = c.expectation(p)
            have.setdefault(msg.rsplit('::', 1)[-1], set()).add((cur, nxt))
            if nxt == 'connected':
                ctx.ob('stages', '%s in %s' % (h.q.rsplit('::', 1)[-1], cur), ex is not None and ex[0].endswith('DotsMsgError') or (ex is None and cur == 'connected'), at(h), 'a handshake message can still be accepted after connected: %s; %s' % (ex[0] if ex else None, pathstr(p)))
            elif nxt == 'connecting' and msg.endswith(('DotsMsgConnect', 'DotsMsgConnectResponse')):
                ctx.ob('stages', '%s in %s' % (h.q.rsplit('::', 1)[-1], cur), False, at(h), 'an accepted handshake message does not advance the connection; ' + pathstr(p))
    for m in ('DotsMsgConnect', 'DotsMsgConnectResponse'):
        for tr in (('connecting', 'early_subscribe'), ('connecting', 'connected'), ('early_subscribe', 'connected')):
            ctx.ob('stages', '%s %s->%s reachable' % ((m,) + tr), tr in have.get(m, set()), at(c.start), 'the handshake no longer has this transition (found %s)' % sorted(have.get(m, [])))
    # writes of the state outside the analysed entry points
    for f in c.P.fns.values():
        if f.clsq != 'dots::Connection' or f.u in E.visited: continue
        for n in nodes(f.b):
            if n['k'] == 'asg' and n['l1'].get('k') == 'mem' and n['l1'].get('n') == c.state:
                ctx.ob('monotone', f.q, False, at(f, n), 'state written in a function that no entry point reaches')
    ctx.need('monotone', 8); ctx.need('reported', 8); ctx.need('error-ends', 2); ctx.need('announce', 2); ctx.need('start', 2); ctx.need('dtor', 1)
    ctx.engine(E)
