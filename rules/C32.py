from .common import *
import re
UNITS = ['lib/src/%s.cpp' % u for u in ('HostTransceiver', 'GuestTransceiver', 'tools/Uri', 'io/Endpoint', 'io/auth/LegacyAuthManager', 'io/channels/TcpChannel', 'io/channels/TcpListener', 'io/channels/UdsChannel', 'io/channels/UdsListener', 'io/channels/WebSocketChannel', 'io/channels/WebSocketListener')]
ACC = ('scheme', 'host', 'port', 'path', 'userName', 'userPassword', 'authority')

def subterms(t, seen=None):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term): yield x; st.extend(x.a)
        elif isinstance(x, (tuple, list)): st.extend(x)
def schemes(p):
    """what is known about the scheme on a path: text -> equal"""
    out = {}
    for t, v in p.facts.items():
        if not isinstance(t, Term) or not isinstance(v, bool): continue
        s = show(t)
        m = re.search(r'(?:scheme\(\)|m_scheme) == "([^"]*)"$|^"([^"]*)" == .*(?:scheme\(\)|m_scheme)$', s)
        if m: out[m.group(1) if m.group(1) is not None else m.group(2)] = v
    return out
def chosen(p):
    eq = [s for s, v in schemes(p).items() if v]
    return eq[0] if len(eq) == 1 else None
def may_be(p, s):
    k = schemes(p)
    return k.get(s) is not False and not any(v and x != s for x, v in k.items())

def check(ctx, tier):
    P = load(ctx, [u for u in UNITS if os.path.exists(os.path.join(program.REPO, u))])
    ctx.rule('tables', 'the schemes that can be listened on are those that can be connected to')
    ctx.rule('kind', 'the channels a listener creates for a scheme are of the kind that is used for connecting with this scheme')
    ctx.rule('endpoint', 'the listener and the channel are created with the endpoint that was asked for')
    ctx.rule('refused', 'a scheme that is not known is refused with an error')
    ctx.rule('same-parts', 'listening and connecting take the same parts of the endpoint')
    ctx.rule('default-port', 'an endpoint without port means the same default port for listening and connecting')
    ctx.rule('unaltered', 'the address, port and path of an endpoint are used as they are')
    ctx.rule('access', 'every connection that crosses a network is subject to the access rules for its address')
    ctx.rule('remote', 'the peer of a network connection is named by the address of the connected socket')
    ctx.rule('address', 'an address that contains colons is delimited when it is written into an URI')
    ctx.rule('whole', 'parsing an URI determines all of its parts anew')
    E = Engine(P); ctx.engine(E)
    tab = {}
    for role, cls, make, base in (('listen', 'dots::HostTransceiver', 'make_unique', 'dots::io::Listener'), ('connect', 'dots::GuestTransceiver', 'make_shared', 'dots::io::Channel')):
        fs = [f for f in P.fns.values() if f.clsq == cls and f.b is not None and f.acc == 0 and not f.is_lambda and not f.ta and any('io::Endpoint' in p['t'] for p in f.ps)]
        fs = [f for f in fs if any(n['k'] == 'str' for n in nodes(f.b)) or any(True for p in E.run(f) if schemes(p))]
        if not fs: raise AnalysisBroken('no function of %s that selects a scheme' % cls)
        for f in fs:
            ctx.fns([f])
            for p in E.run(f):
                k = schemes(p); s = chosen(p)
                made = [(e, x) for e in p.tr if e.k == 'call' for x in [kind_of(e, base, P)] if x]
                if s is None:
                    if k and not any(k.values()):
                        ctx.ob('refused', '%s unknown scheme' % f.short().split(' (')[0], p.how == 'throw' and not made, at(f), 'an endpoint whose scheme is none of %s is not refused; %s' % (sorted(k), pathstr(p)))
                    elif not k and made: ctx.ob('refused', '%s without scheme' % f.short().split(' (')[0], False, at(f), 'something is created regardless of the scheme; ' + pathstr(p))
                    continue
                if p.how == 'throw' and not made: continue
                if not made: ctx.ob('tables', '%s %s' % (role, s), False, at(f), 'nothing is created for the scheme; ' + pathstr(p)); continue
                for e, x in made:
                    tab.setdefault(role, {}).setdefault(s, set()).add(x)
                    ep = [a for a in e.a if isinstance(a, Term) and any('ndpoint' in show(y) for y in subterms(a))]
                    src = [t for t in subterms(tuple(t for t, v in p.facts.items() if isinstance(t, Term) and v is True and chosen_term(t, s)))]
                    own = any(show(a) in [show(y) for y in src] for a in e.a)
                    ctx.ob('endpoint', '%s %s' % (role, s), own, at(f, e.node), 'the %s is not given the endpoint whose scheme was looked at; %s' % (x, pathstr(p)))
    ls, cs = set(tab.get('listen', {})), set(tab.get('connect', {}))
    for s in sorted(ls | cs):
        ctx.ob('tables', s, s in ls and s in cs, 'lib/src/%s.cpp' % ('GuestTransceiver' if s in ls else 'HostTransceiver'), 'the scheme %s can be used for %s only' % (s, 'listening' if s in ls else 'connecting'))
    ctx.need('tables', 7); ctx.need('refused', 2)
    # the channels of the listeners
    created = {}
    for f in P.fns.values():
        if f.b is None or not f.cls: continue
        for n in nodes(f.b):
            if n['k'] == 'call' and n['q'].rsplit('::', 1)[-1] in ('make_channel', 'make_shared') and n.get('ta') and n['ta'][0].startswith('dots::io::'): created.setdefault(owner(P, f).cls, set()).add(n['ta'][0])
    net = {}
    for s in sorted(ls & cs):
        for lt in sorted(tab['listen'][s]):
            for ct in sorted(tab['connect'][s]):
                got = created.get(lt, set())
                ctx.ob('kind', s, got == {ct}, 'lib/src/HostTransceiver.cpp', 'a connection to an endpoint with scheme %s uses %s, but the listener %s creates %s' % (s, ct, lt, sorted(got)))
                a, b = parts(P, lt, E), parts(P, ct, E)
                ctx.ob('same-parts', s, a[0] == b[0] and a[0] is not None, a[2] or b[2] or '', 'the listener %s uses %s of the endpoint, the channel %s uses %s' % (lt, a[0], ct, b[0]))
                if 'port' in (a[0] or ()): ctx.ob('default-port', s, a[1] == b[1], a[2], 'default ports: %s for listening, %s for connecting' % (sorted(map(str, a[1])), sorted(map(str, b[1]))))
                for k in (lt, ct):
                    for f in taking(P, k):
                        ctx.fns([f])
                        for pth in E.run(f): unaltered(ctx, f, pth)
                        for g in P.fns.values():
                            if g.cls == k and g.kind == 'ctor' and g.b is not None and g is not f and any(is_text(q['t']) for q in g.ps):
                                ctx.fns([g])
                                for pth in E.run(g): unaltered(ctx, g, pth)
                for f, n, sc, ipv in remotes(P, ct):
                    if ipv: net.setdefault(sc, []).append((f, n, ct))
    ctx.need('kind', 7); ctx.need('same-parts', 7); ctx.need('default-port', 4)
    # the access rules
    auth = [f for f in P.fns.values() if f.clsq == 'dots::io::LegacyAuthManager' and f.b is not None and f.acc == 0 and not f.is_lambda and any('io::Endpoint' in p['t'] for p in f.ps) and f.rt != 'void']
    rules = fields_of_type(P, 'dots::io::LegacyAuthManager', 'DotsAuthentication>')
    rules = [r for r in fields_of_type(P, 'dots::io::LegacyAuthManager', 'DotsAuthentication') if 'ubscription' not in r] or rules
    if not rules: raise AnalysisBroken('no access rules in LegacyAuthManager')
    if not net: raise AnalysisBroken('no network connections found')
    for sc, where in sorted(net.items(), key=str):
        f0, n0, ct = where[0]
        if sc is None: ctx.ob('access', 'unknown scheme of %s' % ct, False, at(f0, n0), 'the scheme of the peer of a network connection is not known'); continue
        for f in auth:
            bad = None; n = 0
            for p in E.run(f):
                if p.how != 'ret' or not may_be(p, sc): continue
                n += 1
                ok = any(is_rules(y, rules) for t in p.facts for y in subterms(t)) or any(is_rules(y, rules) for e in p.tr for y in subterms(tuple(e.a or ()) + ((e.o,) if e.o is not None else ())))
                # an overload that is judged itself
                if not ok and any(e.k == 'call' and any(e.q == g.q for g in auth) for e in p.tr): ok = True
                if not ok and bad is None: bad = p
            ctx.ob('access', '%s %s' % (f.short().split(' (')[0], sc), bad is None and n > 0, at(f), 'peers of %s have endpoints with the scheme %s, which are decided without looking at the access rules; %s' % (ct, sc, pathstr(bad) if bad else 'no path'))
    ctx.need('access', 4)
    for f, n, sc, ipv, src in [(f, n, *r) for c in sorted({c for v in tab.get('connect', {}).values() for c in v}) for f, n, *r in remote_args(P, c)]:
        if ipv: ctx.ob('remote', '%s %s' % (f.short().split(' (')[0], n.get('l')), src == 'remote_endpoint', at(f, n), 'the remote endpoint is not the address the socket is connected to, but %s' % src)
    ctx.need('remote', 3)
    # addresses in URIs
    for f in P.fns.values():
        if f.clsq != 'dots::io::Endpoint' or f.kind != 'ctor' or not any('basic_endpoint' in p['t'] for p in f.ps): continue
        for p in E.run(f):
            for e in p.tr:
                if e.k not in ('ctor', 'init', 'call') or not isinstance(e.node, dict): continue
                for i, a in enumerate(e.a or []):
                    if 'address()' in show(a): follow(ctx, P, E, f, e, i, a, p, set())
    ctx.need('address', 1)
    views = [x['n'] for r in P.records_q.get('dots::tools::Uri', []) for x in r['fields'] if 'basic_string_view' in x['t']]
    if not views: raise AnalysisBroken('Uri has no views into its text')
    for f in P.fns.values():
        if f.clsq != 'dots::tools::Uri' or f.b is None or f.kind == 'ctor' or f.is_lambda: continue
        ps = E.run(f)
        sets = [any(e.k == 'set' for e in p.tr) and any(is_view_set(e, views) for e in p.tr) for p in ps]
        if not any(sets): continue
        if calls_setter(P, f, views): continue
        for p in ps:
            if p.how != 'ret': continue
            for v in views: ctx.ob('whole', '%s %s' % (f.short().split(' (')[0], v), any(e.k == 'set' and v in assigned(e, views) for e in p.tr), at(f), 'the part %s of the previous text is kept; %s' % (v, pathstr(p)))
    ctx.need('whole', 8)

def follow(ctx, P, E, f, e, i, a, p, seen):
    """the text of an address is passed on until it becomes a part of the text of an URI"""
    g = P.fns.get((e.node.get('e') or e.node).get('f') or e.node.get('f'))
    if bracketed(a, p, show(a)): ctx.ob('address', f.short().split(' (')[0], True, at(f, e.node)); return
    if g is None or g.b is None or i >= len(g.ps): return
    if (g.u, i) in seen: return
    seen.add((g.u, i)); nm = g.ps[i]['n']
    if not nm or g.clsq != 'dots::tools::Uri' and any('base' in x for x in g.inits or []) and len(g.inits) == 1:
        # inherited constructors
        for n in nodes([x.get('e') for x in g.inits]):
            h = P.fns.get(n.get('f')) if n['k'] == 'ctor' else None
            if h is not None and len(h.ps) == len(g.ps): g = h; nm = g.ps[i]['n']; break
    for q in E.run(g):
        for x in q.tr:
            if x.k not in ('ctor', 'init', 'call', 'set') or not isinstance(x.node, dict): continue
            for j, b in enumerate(x.a or []):
                if nm not in [show(y) for y in subterms(b)]: continue
                if show(b) == nm and (x.node.get('e') or x.node).get('f') in P.fns: follow(ctx, P, E, g, x, j, b, q, seen)
                elif '+' in show(b): ctx.ob('address', '%s:%s' % (g.short().split(' (')[0], g.line), bracketed(b, q, nm), at(g, x.node), 'the address of a socket is put into the text of the URI as it is, the colons of an IPv6 address would be taken for the port; ' + pathstr(q))
def bracketed(t, p, nm):
    if '"["' in show(t): return True
    for x, v in p.facts.items():
        s = show(x) if isinstance(x, Term) else ''
        if '"["' in s and v is True: return True
        if nm not in s: continue
        if 'is_v4' in s and v is True or 'is_v6' in s and v is False: return True
        if 'find' in s and (":" in s or '58' in s) and v is ('18446744073709551615' in s): return True
        if 'contains' in s and v is False: return True
    return False
def calls_setter(P, f, views):
    """setters that leave the views to the parser"""
    own = {n['n'] for n in nodes(f.b) if n['k'] == 'mem' and n['n'] in views}
    return any(n['k'] == 'call' and n.get('f') in P.fns and P.fns[n['f']].clsq == 'dots::tools::Uri' and P.fns[n['f']].b is not None and sets_views(P, P.fns[n['f']], views, set()) for n in nodes(f.b)) and not direct(f, views)
def direct(f, views):
    return any(n['k'] == 'call' and n.get('op') == '=' and n.get('o') and n['o'].get('k') == 'mem' and n['o']['n'] in views or n['k'] == 'asg' and n['l1'].get('k') == 'mem' and n['l1']['n'] in views for n in nodes(f.b)) or any(n['k'] == 'call' and n['q'] == 'std::tie' and any(a.get('k') == 'mem' and a['n'] in views for a in n['a']) for n in nodes(f.b))
def sets_views(P, f, views, seen):
    if f.u in seen: return False
    seen.add(f.u)
    return direct(f, views) or any(n['k'] == 'call' and n.get('f') in P.fns and P.fns[n['f']].clsq == 'dots::tools::Uri' and P.fns[n['f']].b is not None and sets_views(P, P.fns[n['f']], views, seen) for n in nodes(f.b))
def assigned(e, views):
    out = set()
    o = e.o
    if isinstance(o, Term) and o.op == 'fld' and o.a[1] in views: out.add(o.a[1])
    if e.q in views: out.add(e.q)
    if isinstance(e.q, str) and e.q.rsplit('::', 1)[-1] in views: out.add(e.q.rsplit('::', 1)[-1])
    if isinstance(e.node, dict):
        for n in nodes(e.node.get('o') or e.node.get('l1') or {}):
            if n['k'] == 'call' and n['q'] == 'std::tie': out |= {a['n'] for a in n['a'] if a.get('k') == 'mem' and a['n'] in views}
    for x in subterms(o) if o is not None else ():
        if x.op == 'tie': out |= {y.a[1] for y in x.a if isinstance(y, Term) and y.op == 'fld'}
    return out
def is_view_set(e, views): return e.k == 'set' and bool(assigned(e, views))
def chosen_term(t, s): return ('== "%s"' % s) in show(t) or ('"%s" ==' % s) in show(t)
def is_rules(t, rules): return t.op == 'fld' and len(t.a) > 1 and t.a[1] in rules
def kind_of(e, base, P):
    ta = (e.node or {}).get('ta') if isinstance(e.node, dict) else None
    if not ta or e.q.rsplit('::', 1)[-1] not in ('make_unique', 'make_shared', 'make_channel'): return None
    c = ta[0]; seen = set(); st = [c]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x == base: return c
        for r in P.records_q.get(x.split('<')[0], []): st.extend(r.get('bases') or [])
        if x.split('<')[0] == base: return c
    return None
def owner(P, f):
    return f
def remote_args(P, ct):
    """the remote endpoints a kind of channel reports: (function, call, scheme, of a network, source)"""
    out = []
    for f in P.fns.values():
        if f.b is None or f.cls != ct: continue
        for n in nodes(f.b):
            if n['k'] != 'call' or n['q'].rsplit('::', 1)[-1] != 'initEndpoints' or len(n['a']) < 2: continue
            a = n['a'][1]
            cs = [x for x in nodes(a) if x['k'] == 'ctor' and x['q'] in ('dots::io::Endpoint', 'dots::tools::Uri')]
            lits = [x['v'] if 'v' in x else x.get('s') for x in nodes(a) if x['k'] == 'str']
            ip = any('asio::ip::tcp' in (x.get('t') or '') for x in nodes(a))
            src = sorted({x['q'].rsplit('::', 1)[-1] for x in nodes(a) if x['k'] == 'call' and x['q'].endswith('_endpoint')})
            sc = None
            if lits: sc = str(lits[0]).split(':')[0]
            elif cs:
                for x in cs:
                    g = P.fns.get(x.get('f'))
                    if g is not None:
                        ls = [y['v'] if 'v' in y else y.get('s') for y in nodes([i.get('e') for i in g.inits or []]) if y['k'] == 'str']
                        ls += [y['v'] if 'v' in y else y.get('s') for i in nodes([i.get('e') for i in g.inits or []]) if i['k'] == 'lambda' and i.get('f') in P.fns for y in nodes(P.fns[i['f']].b) if y['k'] == 'str']
                        if ls: sc = ls[0]
            out.append((f, n, sc, ip, ', '.join(src)))
    return out
def remotes(P, ct): return [(f, n, sc, ip) for f, n, sc, ip, src in remote_args(P, ct)]
KEEP = ('empty', 'data', 'c_str', 'begin', 'end', 'size', 'length', 'cbegin', 'cend', 'operator basic_string_view', 'str')
def is_text(t): return 'basic_string' in t or 'string_view' in t or t.replace('const ', '').rstrip(' &') in ('std::string', 'std::string_view')
def plain(t, e):
    while isinstance(t, Term) and t.op == 'new' and len(t.a) > 1 and 'basic_string' in str(t.a[0]): t = t.a[1]
    return t
def unaltered(ctx, f, p):
    ps = {q['n'] for q in f.ps if is_text(q['t'])}
    first = not ps
    for e in p.tr:
        if e.k == 'throw' or e.k not in ('ctor', 'call'): continue
        if first and e.k == 'ctor':
            for a in e.a:
                if not isinstance(a, Term): continue
                t = plain(a, e); s = show(t)
                if not re.search(r'endpoint|\bm_(host|port|path|authority|uriStr)\b', s) or '.m_' not in s: 
                    if s.startswith("glob('"):
                        emp = any(('m_port' in show(x)) and v is True for x, v in p.facts.items() if isinstance(x, Term) and 'empty' in show(x) or isinstance(x, Term) and 'size' in show(x) and '== 0' in show(x))
                        ctx.ob('unaltered', '%s default' % f.short().split(' (')[0], emp, at(f, e.node), 'a default is used although the endpoint might name a port; ' + pathstr(p))
                    continue
                ctx.ob('unaltered', '%s %s' % (f.short().split(' (')[0], s.rsplit('.', 1)[-1][:20]), t.op == 'fld' and t.a[1] in ('m_host', 'm_hostDelimited', 'm_port', 'm_path', 'm_authority', 'm_uriStr'), at(f, e.node), 'what is used is not a part of the endpoint but %s; %s' % (s, pathstr(p)))
        elif not first:
            q = e.q.rsplit('::', 1)[-1]
            if q in ('runtime_error', 'logic_error') or 'error' in q: continue
            for a in e.a:
                if not isinstance(a, Term): continue
                for t in subterms(a):
                    m = re.match(r'(\w+)\.(\w+)\(', show(t))
                    if m and m.group(1) in ps: ctx.ob('unaltered', '%s %s' % (f.short().split(' (')[0], m.group(1)), m.group(2) in KEEP, at(f, e.node), 'what is used is not the %s that was given but %s; %s' % (m.group(1), show(t), pathstr(p)))
                t = plain(a, e)
                if isinstance(t, Term) and show(t) in ps: ctx.ob('unaltered', '%s %s' % (f.short().split(' (')[0], show(t)), True, at(f, e.node), '')
def taking(P, cls): return [f for f in P.fns.values() if f.cls == cls and f.kind == 'ctor' and f.ps and any('io::Endpoint' in p['t'] for p in f.ps)]
def parts(P, cls, E):
    """what the constructor taking an endpoint uses of it, the default port and where"""
    for f in P.fns.values():
        if f.cls != cls or f.kind != 'ctor' or not f.ps or not any('io::Endpoint' in p['t'] for p in f.ps): continue
        body = [i.get('e') for i in f.inits or []] + [f.b]
        used = sorted({n['q'].rsplit('::', 1)[-1] for n in nodes(body) if n['k'] == 'call' and n['q'].startswith('dots::tools::Uri::') and n['q'].rsplit('::', 1)[-1] in ACC})
        for p in E.run(f):
            for e in p.tr:
                if e.k == 'ctor': used += [t.a[1][2:].replace('Delimited', '') for a in e.a if isinstance(a, Term) for t in subterms(a) if t.op == 'fld' and t.a[1] in ('m_host', 'm_hostDelimited', 'm_port', 'm_path', 'm_authority', 'm_uriStr')]
        used = sorted(set(used))
        body += [P.fns[n['f']].b for n in nodes(body) if n['k'] == 'call' and n.get('f') in P.fns and P.fns[n['f']].b is not None and not P.fns[n['f']].q.startswith('dots::tools::Uri')]
        ports = {n.get('str', n.get('cv', n['n'])) for n in nodes(body) if n['k'] == 'ref' and n.get('dk') == 'glob'} | {n.get('v') for n in nodes(body) if n['k'] == 'str'}
        return used, ports, at(f)
    return None, set(), ''
