"""Model of dots::Dispatcher: handler pools, invocations and the bookkeeping of handlers being called or removed, recovered by type."""
from .common import *
D = 'dots::Dispatcher'

class Disp:
    def __init__(self, ctx, extra=()):
        self.P = P = load(ctx, ['lib/src/Dispatcher.cpp', 'lib/src/Event.cpp'] + list(extra))
        self.foreign = foreign(P, D)
        fl = {f['n']: f for r in P.records_q.get(D, []) for f in r['fields']}
        pools = [f for f in fl.values() if 'Handler<' in f['t'] and 'map<' in f['t'] and 'StructDescriptor' in f['t']]
        self.tpool = [f for f in pools if 'io::Transmission' in f['t']]; self.epool = [f for f in pools if 'Event<' in f['t']]
        if len(self.tpool) != 1 or len(self.epool) != 1: raise AnalysisBroken('handler pools of the dispatcher not identified')
        self.tpool = self.tpool[0]; self.epool = self.epool[0]
        self.cpool = one_field(P, D, 'ContainerPool')
        self.pools = {'tx': T('fld', THIS, self.tpool['n']), 'ev': T('fld', THIS, self.epool['n'])}
        self.idvecs = [n for n, f in fl.items() if f['t'].startswith(('std::vector<unsigned long', 'std::set<unsigned long', 'std::unordered_set<unsigned long', 'std::deque<unsigned long', 'std::list<unsigned long'))]
        self.cache = {}
    def engine(self, also=(), **kw):
        o = foreign(self.P, D, also=also)
        return Engine(self.P, this_cls=D, rec_loop=True, opaque=lambda f: o(f) or f.clsq in ('dots::Event', 'dots::Container', 'dots::ContainerPool'), max_states=60000, **kw)
    def calls(self, p):
        """handler invocations: (index, event, 'tx'|'ev')"""
        out = []
        for i, e in enumerate(p.tr):
            if e.k != 'invoke' or not e.a: continue
            if mentions(e.o, lambda x: x is self.pools['ev']) or any(x.op == 'new' and str(x.a[0]).startswith('dots::Event') for x in walk(e.a[0])): out.append((i, e, 'ev'))
            elif mentions(e.o, lambda x: x is self.pools['tx']): out.append((i, e, 'tx'))
            elif len(e.a) == 1: 
                t = e.node.get('ct') or ''
                if 'Event<' in t: out.append((i, e, 'ev'))
                elif 'Transmission' in t: out.append((i, e, 'tx'))
        return out
    def pool_keys(self, t, pool):
        """keys under which the pool is looked up in t"""
        r = []
        for x in walk(t):
            if x.op in ('at', 'has') and x.a[0] is pool: r.append(x.a[1])
            elif x.op in ('pc', 'ret') and len(x.a) > 2 and x.a[1] is pool and str(x.a[0]).endswith(('::find', '::at', '::operator[]')): r.append(x.a[2])
        return r
    def addr(self, t):
        while isinstance(t, Term) and t.op in ('addr', 'deref', 'refto') and len(t.a) == 1: t = t.a[0]
        return t
