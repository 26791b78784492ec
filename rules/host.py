"""Model of dots::HostTransceiver recovered from its source: group table, guest table, callbacks and abstract paths."""
from .common import *
UNITS = ['lib/src/HostTransceiver.cpp']
H = 'dots::HostTransceiver'
CONN = 'dots::Connection'
INTERNAL_OPAQUE = {'dots::Dispatcher::dispatch', 'dots::Connection::handleError', 'dots::Connection::transmit'}

def lam_targets(P, t, cls):
    """functions of class cls a callback term refers to (member pointer, or lambda that calls them on this)"""
    out = set()
    for x in walk(t):
        if x.op == 'fnref' and x.a[0].rsplit('::', 1)[0] in cls: out.add(x.a[1])
        if x.op == 'lam':
            for m in nodes(Engine.lams[x.a[0]][0]):
                if m['k'] == 'call' and m.get('q', '').rsplit('::', 1)[0] in cls: out.add(m['f'])
    return out

class Host:
    def __init__(self, ctx, extra=()):
        self.P = P = load(ctx, UNITS + list(extra))
        g = sorted(set(f['n'] for r in P.records_q.get(H, []) for f in r['fields'] if 'Connection *' in f['t'] and ('set' in f['t'] or 'vector' in f['t']) and 'string' in f['t']))
        if len(g) != 1: raise AnalysisBroken('cannot identify the group table of the host: %s' % g)
        self.groups = g[0]
        self.guests = one_field(P, H, 'shared_ptr<dots::Connection>')
        self.opaque = foreign(P, H)
        self.E = self.engine()
        self.cache = {}
        self.rx = self.tr = None
        for f in P.fns.values():
            if f.clsq == H and f.b is not None:
                for p in self.paths(f):
                    for e in p.tr:
                        if e.k == 'call' and e.q == CONN + '::asyncReceive':
                            self.acc = f
                            c = [lam_targets(P, a, (H, 'dots::Transceiver')) for a in e.a]
                            c = [x for x in c if x]
                            if len(c) == 2 and all(len(x) == 1 for x in c):
                                self.rx = P.fns.get(list(c[0])[0]); self.tr_usr = list(c[1])[0]
        if self.rx is None: raise AnalysisBroken('cannot identify the callbacks the host registers with its guest connections')
        # the transition callback of the base class ends in the virtual function this class overrides
        self.tr = P.fns.get(self.tr_usr)
        if self.tr is None or self.tr.clsq != H:
            ov = [f for f in P.fns.values() if f.clsq == H and f.b is not None and f.ov and len(f.ps) == 2 and 'Connection' in f.ps[0]['t'] and 'exception_ptr' in f.ps[1]['t']]
            if len(ov) != 1: raise AnalysisBroken('cannot identify the transition handler of the host')
            self.tr = ov[0]
    def engine(self, **kw):
        kw.setdefault('max_states', 40000)
        return Engine(self.P, opaque=self.opaque, this_cls=H, **kw)
    def paths(self, f, E=None):
        k = (f.u, id(E))
        if k not in self.cache: self.cache[k] = (E or self.E).run(f)
        return self.cache[k]
    def fn(self, name, **kw): return self.P.get(H + '::' + name, **kw)
    def is_groups(self, t): return under_this(t, self.groups)
    def is_guests(self, t): return under_this(t, self.guests)
    def dispatches(self, p): return [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.q == 'dots::Dispatcher::dispatch']
    def conn_tx(self, p): return [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.q == CONN + '::transmit']
    def group_tx(self, p): return [(i, e) for i, e in self.conn_tx(p) if mentions(e.o, self.is_groups)]
    def publishes(self, p): return [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.name() in ('publish', 'remove') and e.q.startswith(('dots::HostTransceiver', 'dots::Transceiver'))]

def con_pred(f):
    """predicate recognising the connection parameter of f (read, taken as a location, or its address)"""
    n = [x['n'] for x in f.ps if 'Connection' in x['t']][0]
    def is_con(t):
        while isinstance(t, Term) and t.op in ('addr', 'deref') and len(t.a) == 1: t = t.a[0]
        return isinstance(t, Term) and t.op in ('par', 'var') and t.a[-1] == n
    return is_con

def header_of(t):
    """header term of a transmission term"""
    if t.op == 'new' and len(t.a) >= 2 and isinstance(t.a[0], str) and t.a[0].endswith('Transmission'): return t.a[1]
    return None
