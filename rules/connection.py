"""Model of the connection handshake, recovered from the source of dots::Connection."""
from .common import *

RANK = {'suspended': 0, 'connecting': 1, 'early_subscribe': 2, 'connected': 3, 'closed': 4}
HANDSHAKE = ['dots::types::DotsMsgHello', 'dots::types::DotsMsgConnect', 'dots::types::DotsMsgConnectResponse', 'dots::types::DotsMsgError']
UNITS = ['lib/src/Connection.cpp']

class Conn:
    def __init__(self, ctx, extra=()):
        self.P = P = load(ctx, UNITS + list(extra))
        C = 'dots::Connection'
        self.state = one_field(P, C, 'DotsConnectionState')
        self.chan = one_field(P, C, 'io::Channel')
        # the two owner callbacks and the expectation are identified by their types
        self.recv = one_field(P, C, 'optional<dots::tools::Handler<bool (dots::Connection &, dots::io::Transmission')
        self.trans = one_field(P, C, 'optional<dots::tools::Handler<void (dots::Connection &, std::exception_ptr') if fields_of_type(P, C, 'optional<dots::tools::Handler<void (dots::Connection &, std::exception_ptr') else one_field(P, C, 'optional<dots::tools::Handler<void (dots::Connection &')
        self.expect = one_field(P, C, 'std::tuple<const dots::type::StructDescriptor *')
        self.fstate = T('fld', THIS, self.state)
        self.E = Engine(P, rec_deref=True, max_states=20000)
        self.cache = {}
        # entry points registered with the channel
        self.start, sp = self.paths('asyncReceive')
        rx = set()
        for p in sp:
            for e in p.tr:
                if e.k == 'call' and e.q == 'dots::io::Channel::asyncReceive':
                    for n, a in enumerate(e.a):
                        for x in walk(a):
                            if x.op == 'fnref': rx.add((n, x.a[1]))
                            if x.op == 'lam':
                                for m in nodes(Engine.lams[x.a[0]][0]):
                                    if m['k'] == 'call' and m.get('q', '').startswith(C + '::') and m.get('o', {}).get('k') == 'this': rx.add((n, m['f']))
        r0 = [u for n, u in rx if n == 0]; r1 = [u for n, u in rx if n == 1]
        if len(r0) != 1 or len(r1) != 1 or r0[0] not in P.fns or r1[0] not in P.fns: raise AnalysisBroken('cannot identify the receive and error callbacks the connection registers with its channel: %s' % sorted(rx))
        self.rx = P.fns[r0[0]]; self.err = P.fns[r1[0]]
    def fpaths(self, f):
        ck = ('h', f.u)
        if ck not in self.cache: self.cache[ck] = (f, self.E.run(f))
        return self.cache[ck]
    def roots(self, ctx=None):
        """every function through which control enters the connection: public members, destructor, callbacks, stage handlers"""
        fs = {}
        for f in self.P.fns.values():
            if f.clsq == 'dots::Connection' and f.b is not None and (f.acc == 0 or f.u in (self.rx.u, self.err.u)) and not f.imp: fs[f.u] = f
        for cur, msg, props, h, ps, src in self.automaton(ctx): fs[h.u] = h
        return [self.fpaths(f) for f in fs.values()]
    def paths(self, q, **kw):
        key = (q, tuple(sorted(kw.items())))
        if key not in self.cache:
            f = self.P.get('dots::Connection::' + q, **kw)
            self.cache[key] = (f, self.E.run(f))
        return self.cache[key]
    def st(self, name): return T('enum', 'dots::types::DotsConnectionState::' + name)
    def is_state(self, name): return T('==', self.fstate, self.st(name))
    def state_sets(self, p):
        return [(i, e, e.a[0].a[0].rsplit('::', 1)[-1] if e.a[0].op == 'enum' else None) for i, e in enumerate(p.tr) if e.k == 'set' and e.o is self.fstate]
    def invokes(self, p, field):
        loc = T('fld', THIS, field)
        vals = set(); out = []
        for i, e in enumerate(p.tr):
            if e.k == 'set' and e.o is loc and e.a[0].op == 'some': vals.add(e.a[0].a[0])
            if e.k == 'invoke' and mentions(e.o, lambda x: x is loc or x in vals): out.append((i, e))
        return out
    def recv_invokes(self, p): return self.invokes(p, self.recv)
    def trans_invokes(self, p): return self.invokes(p, self.trans)
    def sends(self, p):
        return [(i, e, self.sent_instance(e)) for i, e in enumerate(p.tr) if e.k == 'call' and e.q == 'dots::io::Channel::transmit']
    def sent_instance(self, e):
        return e.a[-1]
    def expectation(self, p):
        """(message type, property names, handler function) installed last on this path, or None"""
        loc = T('fld', THIS, self.expect)
        v = None
        for e in p.tr:
            if e.k == 'set' and e.o is loc: v = e.a[0]
        if v is None: return None
        if v.op != 'new' or len(v.a) != 4: raise AnalysisBroken('cannot read the installed expectation %s' % show(v))
        ty, props, h = v.a[1], v.a[2], v.a[3]
        while ty.op in ('addr', 'some'): ty = ty.a[0]
        msg = ty.a[0][7:] if ty.op == 'enum' and ty.a[0].startswith('descof ') else show(ty)
        names = set(x.a[0].rsplit('::', 1)[-1][:-2] for x in walk(props) if x.op == 'glob' and x.a[0].endswith('_p'))
        fn = None
        for x in walk(h):
            if x.op == 'fnref': fn = x.a[1]
            if x.op == 'lam':
                node = Engine.lams[x.a[0]][0]
                for c in node['caps']:
                    cv = p.st.env.get(c.get('d'))
                    if cv is not None and cv.op == 'fnref': fn = cv.a[1]
                    elif cv is not None and cv.op == 'null': fn = 'null'
        return msg, names, fn
    def automaton(self, ctx):
        """[(state on entry, message type, expected properties, handler Fn, paths)] reachable from asyncReceive"""
        out = []; seen = set(); todo = []
        f, ps = self.paths('asyncReceive')
        for p in ps:
            if p.how != 'ret': continue
            sets = self.state_sets(p)
            cur = sets[-1][2] if sets else None
            todo.append((cur, self.expectation(p), 'asyncReceive'))
        while todo:
            cur, ex, src = todo.pop()
            if ex is None or ex[2] in (None, 'null'): continue
            key = (cur, ex[0], tuple(sorted(ex[1])), ex[2])
            if key in seen: continue
            seen.add(key)
            h = self.P.fns.get(ex[2])
            if h is None: raise AnalysisBroken('handler %s not found' % ex[2])
            ps = self.fpaths(h)[1]
            out.append((cur, ex[0], ex[1], h, ps, src))
            for p in ps:
                if p.how != 'ret': continue
                sets = self.state_sets(p)
                nc = sets[-1][2] if sets else cur
                todo.append((nc, self.expectation(p), h.q))
        return out
