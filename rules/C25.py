"""C25: framing on the wire."""
from .common import *
CH = 'dots::io::AsyncStreamChannel'
U = 'lib/src/io/channels/TcpListener.cpp'
LIMIT = 10 * 1024 * 1024

RAWV = {}
class Odd(Exception): pass
def last(t): return str(t).rsplit('::', 1)[-1]
def isq(t, n): return isinstance(t, Term) and t.op in ('ret', 'pc') and isinstance(t.a[0], str) and last(t.a[0]) == n
def uncast(t):
    while t.op == 'cast': t = t.a[1]
    return t
WIDE = ('unsigned int', 'unsigned long', 'unsigned long long', 'long', 'long long', 'std::size_t', 'size_t', 'dots::uint32_t', 'std::uint32_t', 'uint32_t', 'dots::uint64_t', 'uint64_t', 'dots::types::uint32_t')

class Lin(dict):
    """linear combination of segment lengths; key 1 is the constant"""
    def norm(self): return Lin({k: v for k, v in self.items() if v})
    def plus(self, o, s=1):
        r = Lin(self)
        for k, v in o.items(): r[k] = r.get(k, 0) + s * v
        return r.norm()
    def const(self):
        n = self.norm()
        return n.get(1, 0) if set(n) <= {1} else None
def I(n): return Lin({1: n}).norm()

class Seg:
    N = 1000
    def __init__(self, kind, *a, n=None): self.kind = kind; self.a = a; Seg.N += 1; self.id = Seg.N; self.n = n; self.bytes = {}
    def len(self): return I(self.n) if self.n is not None else Lin({self.id: 1})
    def __repr__(self): return '%s(%s)%s' % (self.kind, ', '.join(show(x)[:60] if isinstance(x, Term) else str(x) for x in self.a), '[%d]' % self.n if self.n is not None else '')
def total(b):
    r = Lin()
    for s in b: r = r.plus(s.len())
    return r

class Sim:
    """contents of the byte buffers of one path: what every serializer's output and every vector holds after each effect"""
    def __init__(self, p):
        self.p = p
        self.bufs = {}      # key -> list of segments
        self.alias = {}     # term -> key
        self.val = {}       # size/iterator terms -> Lin or ('it', key, Lin)
        self.ser = {}       # serialize ret -> Lin
        self.raw = {}       # local variable -> value written
        self.snap = {}
    def key(self, t, create=True):
        t0 = t
        if t.op == 'refto': t = t.a[0]
        if t in self.alias: return self.alias[t]
        if t.op in ('fld', 'deref', 'var', 'new', 'tmp', 'struct') :
            if create: self.alias[t] = t; self.bufs.setdefault(t, [] if t.op in ('new', 'struct') else [Seg('old', t)])
            return t
        raise Odd('buffer %s' % show(t))
    def buf(self, t): return self.bufs[self.key(t)]
    def lin(self, t):
        if t.op == 'cast': return self.lin(t.a[1])
        if t.op == 'int': return I(int(t.a[0]))
        if t in self.val and isinstance(self.val[t], Lin): return self.val[t]
        if t in self.ser: return self.ser[t]
        if t.op == 'pc' and last(t.a[0]) in ('operator-', 'distance'):
            xs = [x for x in t.a[1:] if isinstance(x, Term)]
            if len(xs) == 2: return self.lin(T('-', *(xs if last(t.a[0]) == 'operator-' else xs[::-1])))
        if t.op in ('+', '-') and len(t.a) == 2:
            a, b = t.a
            x, y = self.pos(a), self.pos(b)
            if t.op == '-' and isinstance(x, tuple) and isinstance(y, tuple) and x[1] is y[1]: return x[2].plus(y[2], -1)
            if isinstance(x, Lin) and isinstance(y, Lin): return x.plus(y, 1 if t.op == '+' else -1)
        raise Odd('quantity %s' % show(t))
    def pos(self, t):
        if t in self.val: return self.val[t]
        if t.op == 'pc' and last(t.a[0]) in ('operator+', 'operator-', 'next', 'prev'):
            xs = [x for x in t.a[1:] if isinstance(x, Term)]
            if len(xs) == 2: return self.pos(T('+' if last(t.a[0]) in ('operator+', 'next') else '-', *xs))
        if t.op == 'cast': return self.pos(t.a[1])
        if t.op in ('+', '-') and len(t.a) == 2:
            x = self.pos(t.a[0])
            if isinstance(x, tuple):
                y = self.pos(t.a[1])
                if isinstance(y, Lin): return (x[0], x[1], x[2].plus(y, 1 if t.op == '+' else -1))
        return self.lin(t)
    def byte(self, t):
        """value of one written byte: ('const', v) or ('of', Lin, shift, narrowed)"""
        if t.op == 'int': return ('const', int(t.a[0]) & 255)
        sh = 0; nar = False; seen = 0
        while True:
            if t.op == 'cast':
                if t.a[0] not in WIDE and seen and not t.a[0].endswith(('char', 'uint8_t')) : nar = True
                elif t.a[0].endswith(('char', 'uint8_t')) and sh: nar = True
                t = t.a[1]
            elif t.op == '>>' and t.a[1].op == 'int': sh += int(t.a[1].a[0]); t = t.a[0]; seen = 1
            elif t.op == '>>':
                c = self.lin(t.a[1]).const()
                if c is None: raise Odd('shift %s' % show(t))
                sh += c; t = t.a[0]; seen = 1
            elif t.op == '&' and t.a[1].op == 'int' and int(t.a[1].a[0]) == 255: t = t.a[0]
            elif t.op == '/' and t.a[1].op == 'int' and int(t.a[1].a[0]) in (256, 65536, 1 << 24): sh += {256: 8, 65536: 16, 1 << 24: 24}[int(t.a[1].a[0])]; t = t.a[0]; seen = 1
            else: break
        return ('of', self.lin(t), sh, nar)
    def rng(self, b, e):
        """segments denoted by an iterator or pointer range"""
        x, y = self.pos_it(b), self.pos_it(e)
        if x[1] is not y[1]: raise Odd('range of two buffers')
        B = self.bufs[x[1]]
        if x[2].const() == 0 and y[2] == total(B): return list(B)
        # a tail or an inner range along segment boundaries
        acc = Lin(); i = j = None
        for k in range(len(B) + 1):
            if acc == x[2] and i is None: i = k
            if acc == y[2]: j = k
            if k < len(B): acc = acc.plus(B[k].len())
        if i is None or j is None: raise Odd('range inside a segment')
        return B[i:j]
    def pos_it(self, t):
        v = self.pos(t)
        if not isinstance(v, tuple): raise Odd('iterator %s' % show(t))
        return v
    def cut(self, B, n):
        acc = Lin()
        for k in range(len(B) + 1):
            if acc == n: del B[k:]; return True
            if k < len(B): acc = acc.plus(B[k].len())
        return False
    def step(self, e, nxt=None):
        n = e.name()
        if e.k == 'pure':
            if n in ('size', 'begin', 'end', 'cbegin', 'cend', 'data', 'inputAvailable') and e.o is not None:
                try: k = self.key(e.o)
                except Odd: return
                L = total(self.bufs[k])
                self.val[e.ret] = L if n == 'size' else ('it', k, I(0) if n in ('begin', 'cbegin', 'data') else L)
            return
        if e.k == 'set':
            o = e.o
            if o.op == 'at':
                try: k = self.key(o.a[0], False)
                except Odd: return
                B = self.bufs.get(k)
                if B is None: return
                idx = self.lin(o.a[1]); acc = Lin()
                for s in B:
                    d = idx.plus(acc, -1).const()
                    if s.n is not None and d is not None and 0 <= d < s.n: s.bytes[d] = self.byte(e.a[0]); s.line = e; return
                    acc = acc.plus(s.len())
                raise Odd('write at %s' % show(o.a[1]))
            if e.extra == 'swap' and (o in self.bufs or o in self.alias): raise Odd('swap')
            if o.op in ('fld', 'var', 'deref') and o in self.bufs: raise Odd('assignment of a buffer')
            if o.op in ('fld', 'var') and isinstance(e.a[0], Term) and e.a[0] in self.alias: self.bufs[o] = list(self.buf(e.a[0])); self.alias[o] = o
            return
        if e.k != 'call': return
        if n == 'output' and e.o is not None:
            k = e.o
            self.alias[e.ret] = k if k.op == 'fld' else e.ret
            if k.op == 'fld': self.bufs.setdefault(k, [Seg('old', k)])
            else:
                # the output of a local serializer is moved out
                self.bufs[e.ret] = list(self.bufs.get(('S', k), [])); self.bufs[('S', k)] = []
            return
        if n == 'serialize' and e.o is not None:
            k = e.o if e.o.op == 'fld' else ('S', e.o)
            B = self.bufs.setdefault(k, [Seg('old', e.o)] if e.o.op == 'fld' else [])
            thrown = nxt is not None and nxt.k == 'threw'
            s = Seg('partial' if thrown else 'ser', *e.a); s.ev = e
            B.append(s); self.ser[e.ret] = s.len()
            return
        if e.o is None:
            if n == 'copy' and len(e.a) == 3 and isq(e.a[2], 'back_inserter'):
                k = self.bi[e.a[2]]
                b, x = e.a[0], e.a[1]
                try: self.bufs[k].extend(self.rng(b, x)); return
                except Odd: pass
                if x.op == '+' and x.a[0] is b and x.a[1].op == 'int': self.bufs[k].append(self.rawseg(b, int(x.a[1].a[0]), e)); return
                raise Odd('copy of %s' % show(b))
            if n == 'back_inserter': self.bi[e.ret] = self.key(e.a[0]); return
            return
        if n in ('insert', 'append') and self.known(e.o) and len(e.a) in (2, 3):
            B = self.buf(e.o)
            if len(e.a) == 3:
                w = self.pos_it(e.a[0])
                if w[1] is not self.key(e.o) or w[2] != total(B): raise Odd('insertion not at the end')
            b, x = e.a[-2:]
            try: r = self.rng(b, x)
            except Odd:
                if x.op == '+' and x.a[0] is b and x.a[1].op == 'int': r = [self.rawseg(b, int(x.a[1].a[0]), e)]
                else: raise
            B.extend(r); return
        if n in ('push_back', 'emplace_back') and self.known(e.o):
            s = Seg('space', n=1); s.bytes[0] = self.byte(e.a[0]); self.buf(e.o).append(s); return
        if n == 'resize' and self.known(e.o):
            B = self.buf(e.o); want = self.lin(e.a[0]); d = want.plus(total(B), -1).const()
            if d is not None and d >= 0:
                if d: B.append(Seg('space', n=d))
            elif not self.cut(B, want): raise Odd('resize to %s' % show(e.a[0]))
            return
        if n == 'erase' and self.known(e.o) and len(e.a) == 2:
            B = self.buf(e.o); b, x = self.pos_it(e.a[0]), self.pos_it(e.a[1])
            if x[2] == total(B) and self.cut(B, b[2]): return
            raise Odd('erase')
        if n == 'clear' and self.known(e.o): self.buf(e.o)[:] = []; return
        if n == 'swap' and self.known(e.o) and e.a:
            a, b = self.key(e.o), self.key(e.a[0]); self.bufs[a], self.bufs[b] = self.bufs[b], self.bufs[a]; return
        if n == 'assign' and self.known(e.o) and len(e.a) == 2:
            self.bufs[self.key(e.o)] = list(self.rng(*e.a)); return
        if n == 'operator=' and self.known(e.o): raise Odd('assignment of a buffer')
    bi = {}
    def known(self, t):
        return t in self.alias or t.op in ('fld', 'deref')
    def rawseg(self, b, n, e):
        v = None
        l = b.a[0] if b.op in ('addr', '&') else b.a[0] if b.op == 'cast' else b
        while isinstance(l, Term) and l.op in ('cast', 'addr', 'refto'): l = l.a[-1]
        s = Seg('raw', l, n=n); s.v = RAWV.get(e.ret, {}).get(l)
        return s

def grown(B, old): return [s for s in B if s.kind != 'old' and s.id not in old]

def check(ctx, tier):
    P = load(ctx, [U])
    ctx.rule('frame', 'what one transmitImpl of a stream channel appends to the write buffer is exactly one frame: v2 = 0x1A, the big endian 32 bit length of what follows, the serialized header, the instance serialized with the attributes of that header; v1 = 16 bit size of the serialized transport header (checked to fit), that transport header, whose payloadSize is the size of the serialized instance, and that instance')
    ctx.rule('limit', 'everything that appends to the write buffer is preceded, on the same path, by a comparison of its size with the limit, and exceeding it throws without appending')
    ctx.rule('rollback', 'a transmission that fails with an exception leaves nothing of itself in the write buffer')
    ctx.rule('cache', 'cached bytes are appended only for the transmission that produced them, completely, and the cache holds exactly the frame of the transmission whose id it names')
    insts = sorted({f.cls for f in P.fns.values() if f.clsq == CH and f.cls})
    if not insts: raise AnalysisBroken('no instantiation of %s' % CH)
    odd = {}
    for cls in insts:
        v1 = 'TransmissionFormat::v1' in cls
        E = Engine(P, opaque=lambda f: f.clsq != CH, this_cls=cls, may_throw=lambda e: e.name() == 'serialize',
                   after_throw=lambda E, s, e: E.emit(s, 'threw', e.q, e.o, (), e.node), rec_pure=lambda e: e.name() in ('size', 'begin', 'end', 'cbegin', 'cend', 'data'))
        E.unroll_const = True; E.rec_cast = lambda t: True
        def after(E, st, e):
            # all references obtained from output() denote the buffer of the serializer: a change through one changes what the others read
            if e.k == 'call' and (e.name() in ('serialize', 'resize', 'insert', 'push_back', 'emplace_back', 'clear', 'swap', 'assign', 'append', 'erase', 'copy', 'operator=')):
                d = dict(st.ver)
                for x in st.tr:
                    if x.name() == 'output' and x.ret is not None: d[x.ret] = d.get(x.ret, 0) + 1
                for x in list(d):
                    if isinstance(x, Term): d[x] = d.get(x, 0) + 1
                st.ver = d
                if e.name() in ('copy', 'insert'):
                    m = {}
                    for t in e.a:
                        for w in walk(t):
                            if w.op in ('var', 'tmp', 'fld'): m[w] = E.rd(st, w)
                    RAWV[e.ret] = m
        E.after = after
        fs = [f for f in P.fns.values() if f.cls == cls and last(f.q) == 'transmitImpl' and f.b is not None and not f.is_lambda]
        if not fs: raise AnalysisBroken('no transmitImpl in %s' % cls)
        for f in fs:
            ps = E.run(f); ctx.fns([f])
            hdr = inst = None
            for p in ps: path(ctx, P, f, p, v1, hdr, inst, odd)
        ctx.engine(E)
    write_rules(ctx, P, insts)
    read_rules(ctx, P, insts)
    message_rules(ctx)
    local_rules(ctx)
    if odd: ctx.assume.append('paths whose buffer arithmetic is not interpreted (nothing is reported for them): ' + '; '.join('%s x%d: %s' % (k[0].split(' ')[0], v, k[1]) for k, v in sorted(odd.items()))[:800])
    ctx.need('frame', 4); ctx.need('limit', 4)

def is_hdr(t, f):
    if t.op == 'par': return len(f.ps) == 2 and t.a[0] == f.ps[0]['n']
    return isq(t, 'header') and t.a[1].op == 'par'
def is_inst(t, f):
    if t.op == 'par': return len(f.ps) == 2 and t.a[0] == f.ps[1]['n']
    return isq(t, 'instance') and t.a[1].op == 'par'
def base(t):
    while t.op in ('upd', 'some') or t.op == 'deref' and t.a[0].op in ('some', 'upd'): t = t.a[0]
    return t
def is_attrs(t, f):
    return t.op == 'deref' and is_fld(t.a[0], 'attributes') and is_hdr(t.a[0].a[0], f)

def path(ctx, P, f, p, v1, hdr, inst, odd):
    sim = Sim(p); sim.bi = {}
    w = at(f); ver = 'v1' if v1 else 'v2'
    appended = None; grow = None; own = None
    name = '%s transmitImpl(%s)' % (ver, 'header, instance' if len(f.ps) == 2 else 'transmission')
    try:
        tr = p.tr
        for i, e in enumerate(tr):
            if e.k in ('call', 'set') and (e.name() == 'swap' or e.extra == 'swap') and appended is None: appended = {k: list(v) for k, v in sim.bufs.items()}; sw = e
            b4 = [] if own is None else sim.bufs[own]; n0 = len(b4)
            sim.step(e, tr[i + 1] if i + 1 < len(tr) else None)
            if own is None:
                c = [k for k, v in sim.bufs.items() if isinstance(k, Term) and k.op == 'fld' and k.a[0] is THIS and e.name() == 'output']
                own = c[0] if c else None
                if own is not None: n0 = len(sim.bufs[own])
            if own is not None and len(sim.bufs[own]) > n0 and grow is None and appended is None: grow = e
        if appended is None: appended = {k: list(v) for k, v in sim.bufs.items()}
        if own is None: raise Odd('no write buffer')
        verdict(ctx, sim, f, p, v1, w, name, appended, own, grow)
    except Odd as o:
        odd[(f.short(), str(o))] = odd.get((f.short(), str(o)), 0) + 1
        import os
        if os.environ.get('DBG'): print('ODD', f.short(), o)

def verdict(ctx, sim, f, p, v1, w, name, ap, own, grow):
    B = ap[own]
    if not B or B[0].kind != 'old' or B[0].a[0] is not own: 
        ctx.ob('frame', name, False, w, 'bytes of earlier transmissions are lost from the write buffer: it then holds %s; %s' % (B, pathstr(p))); return
    new = B[1:]
    # limit: comparisons of the size of the write buffer
    under = over = False
    for a, v in p.facts.items():
        if a.op != '<' or len(a.a) != 2: continue
        for x, y, sg in ((a.a[0], a.a[1], True), (a.a[1], a.a[0], False)):
            if x.op == 'int' and int(x.a[0]) >= 1 << 20 and y in sim.val:
                if isinstance(sim.val[y], Lin) and any(k != 1 for k in sim.val[y]) and sim.bufs[own] is not None and sim.val[y].get(B[0].id):
                    if v is sg: over = over or int(x.a[0]) >= LIMIT       # limit < size
                    else: under = True
    if new or grow is not None:
        ctx.ob('limit', name, under or over, grow.loc() if grow is not None else w, 'the write buffer grows without its size having been compared with the limit; ' + pathstr(p))
    if over: ctx.ob('limit', name + ' over the limit', p.how == 'throw' and not new, w, 'the write buffer exceeds the limit and the transmission is not refused (%s); ' % (new or 'nothing appended, no error') + pathstr(p))
    cache = [t for t in sim.bufs if isinstance(t, Term) and t.op == 'fld' and t.a[0].op == 'deref' and is_fld(t.a[0].a[0], cachefield(p)) ]
    ids = [e for e in p.tr if e.k == 'set' and e.o.op == 'fld' and e.o.a[0].op == 'deref' and e.o.a[0].a[0].op == 'fld' and e.o.a[0].a[0].a[0] is THIS]
    wrote = [c for c in cache if not (len(sim.bufs[c]) == 1 and sim.bufs[c][0].kind == 'old' and sim.bufs[c][0].a[0] is c)]
    if p.how == 'throw':
        ctx.ob('rollback', name, not new, w, 'after an exception the write buffer still holds %s of the failed transmission; ' % new + pathstr(p))
        if cache or ids: ctx.ob('cache', name + ' (failed)', not wrote and not ids or bool(wrote and ids and False), w, 'a failed transmission changes the payload cache; ' + pathstr(p))
        return
    if new and all(s.kind == 'old' for s in new):
        # from the cache
        ok = len(new) == 1 and new[0].a[0] in cache
        ctx.ob('cache', name + ' hit', ok, w, 'appended %s instead of the whole cached frame; ' % new + pathstr(p))
        m = [a for a, v in p.facts.items() if v and a.op in ('==', 'peq') and any(isq(x, 'id') and x.a[1].op == 'par' for x in a.a) and any(x.op == 'fld' and x.a[0] is new[0].a[0].a[0] for x in a.a)] if new[0].a[0].op == 'fld' else [1]
        ctx.ob('cache', name + ' hit id', bool(m), w, 'cached bytes are used without the cached id being that of the transmission; ' + pathstr(p))
        ctx.ob('cache', name + ' hit keeps', not wrote and not ids, w, 'using the cache changes it; ' + pathstr(p))
        return
    # a frame
    why = frame(sim, f, p, v1, new)
    ctx.ob('frame', name, why is None, w, '%s; appended %s; ' % (why, new) + pathstr(p))
    if wrote or ids:
        ok = len(wrote) == 1 and bool(ids) and isq(ids[-1].a[0], 'id') and ids[-1].o.a[0] is wrote[0].a[0]
        ctx.ob('cache', name + ' filled', ok and [s.id for s in sim.bufs[wrote[0]]] == [s.id for s in new], w, 'the payload cache then holds %s under id %s, the frame is %s; ' % ([sim.bufs[c] for c in wrote], [show(e.a[0]) for e in ids], new) + pathstr(p))

def cachefield(p):
    for e in p.tr:
        for t in [e.o] + list(e.a):
            if isinstance(t, Term):
                for x in walk(t):
                    if x.op == 'fld' and x.a[0].op == 'deref' and x.a[0].a[0].op == 'fld' and x.a[0].a[0].a[0] is THIS and x.a[1] in ('first', 'second'): return x.a[0].a[0].a[1]
    return None

def frame(sim, f, p, v1, new):
    if any(s.kind == 'partial' for s in new): return None if p.how == 'throw' else 'a serialization failed and the transmission goes on'
    if not new: return 'nothing is appended'
    head = []; rest = list(new)
    while rest and rest[0].n is not None: head.append(rest.pop(0))
    if any(s.kind != 'ser' for s in rest): return 'unexpected bytes'
    n = sum(s.n for s in head)
    if v1:
        if len(rest) != 2: return 'expected transport header and instance'
        th, ins = rest
        if not is_inst(ins.a[0], f): return 'the payload is not the instance'
        if len(ins.a) < 2 or not is_attrs(ins.a[1], f): return 'the payload is not serialized with the attributes of the header'
        if struct_type(th.a[0]) != 'DotsTransportHeader': return 'the payload is not preceded by the transport header'
        dh, ps = sfield(th.a[0], 'dotsHeader'), sfield(th.a[0], 'payloadSize')
        if dh is None or not is_hdr(base(dh), f): return 'the transport header carries another header (%s)' % show(dh)
        if changed(dh) - {'sentTime', 'sender'}: return 'the header is sent with changed %s' % ', '.join(sorted(changed(dh) - {'sentTime', 'sender'}))
        if ps is None or ps is NONE: return 'payloadSize is not set'
        if sim.lin(strip(ps)) != ins.len(): return 'payloadSize is not the size of the serialized instance'
        if narrow(ps, 4): return 'payloadSize is narrowed'
        if n != 2: return 'the size field has %d bytes' % n
        if len(head) == 1 and head[0].kind == 'raw':
            if head[0].v is None: raise Odd('raw size')
            if sim.lin(strip(head[0].v)) != th.len(): return 'the announced size is not that of the transport header'
            src = uncast(head[0].v)
        else: return bytes_of(head, th.len(), 'little', 0)
        chk = [a for a in p.facts if a.op in ('<', '==', 'peq') and any(x in sim.ser and sim.ser[x] == th.len() or x in sim.val and sim.val[x] == th.len() for x in map(uncast, a.a))]
        if not chk: return 'the size of the transport header is cut to 16 bits without being checked'
        return None
    if len(rest) != 2: return 'expected header and instance'
    h, ins = rest
    if not is_hdr(base(h.a[0]), f): return 'the instance is not preceded by the header'
    if not is_inst(ins.a[0], f): return 'the payload is not the instance'
    if len(ins.a) < 2 or not is_attrs(ins.a[1], f): return 'the payload is not serialized with the attributes of the header'
    if n != 5: return 'the size field has %d bytes, the receiver reads 5' % n
    return bytes_of(head, h.len().plus(ins.len()), 'big', 0x1A)
def strip(t):
    while t.op in ('some', 'cast'): t = t.a[-1] if t.op == 'cast' else t.a[0]
    return t
def narrow(t, n):
    while t.op in ('some', 'cast'):
        if t.op == 'cast' and t.a[0].endswith(('uint16_t', 'short', 'uint8_t', 'char')): return True
        t = t.a[-1] if t.op == 'cast' else t.a[0]
    return False
def changed(t):
    r = set()
    while t.op in ('upd', 'some') or t.op == 'deref':
        if t.op == 'upd': r |= {n for n, v in t.a[1]}
        t = t.a[0]
    return r
def bytes_of(head, L, order, tag):
    bs = []
    for s in head:
        if s.kind == 'raw': raise Odd('raw size')
        for k in range(s.n):
            bs.append(s.bytes.get(k))
    if tag:
        if bs[0] != ('const', tag): return 'the size field starts with %s instead of 0x%x' % (bs[0], tag)
        bs = bs[1:]
    if order == 'little': bs = bs[::-1]
    for k, b in enumerate(bs):
        if b is None: return 'byte %d of the size field is not written' % k
        if b[0] == 'const': return 'byte %d of the size field is constant' % k
        if b[3]: return 'the announced size is narrowed before it is written'
        if b[1] != L: return 'the announced size is not the number of bytes that follow (%s instead of %s)' % (dict(b[1]), dict(L))
        if b[2] != 8 * (len(bs) - 1 - k): return 'byte %d of the size field is bits %d.. of the size' % (k, b[2])
    return None


def fresh(E, p):
    """state at some later time: what is known about mutable state does not hold any more"""
    st = p.st.fork(); st.facts = {}; st.heap = {k: v for k, v in st.heap.items() if not (k.op == 'fld' and k.a[0] is THIS)}; st.tr = (); return st
def swapped(tr, i, x):
    """the buffer x holds, at event i, what a serializer output held, which is empty afterwards"""
    sw = None
    for e in tr[:i]:
        if e.name() == 'swap' or e.extra == 'swap':
            ts = [e.o] + list(e.a)
            if x in ts and any(isq(t, 'output') for t in ts if t is not None): sw = e
    return sw
def write_rules(ctx, P, insts):
    ctx.rule('one-write', 'an asynchronous write is started only when none is in progress (a flag that is set when one is started and reset only when nothing is left to write), its buffer is not touched while it is in progress, and its completion goes on with what has been queued meanwhile or resets the flag')
    for cls in insts:
        E = Engine(P, opaque=lambda f: f.clsq != CH or last(f.q) in ('serializeTransmission',), this_cls=cls, may_throw=lambda e: e.name() == 'verifyErrorCode',
                   after_throw=lambda E, s, e: E.emit(s, 'threw', e.q, e.o, (), e.node))
        fs = [f for f in P.fns.values() if f.cls == cls and last(f.q) == 'transmitImpl' and f.b is not None and not f.is_lambda]
        ver = 'v1' if 'TransmissionFormat::v1' in cls else 'v2'
        for f in fs:
            name = '%s transmitImpl/%d' % (ver, len(f.ps)); seen = set()
            flags = {}
            for p in E.run(f):
                for i, e in enumerate(p.tr):
                    if e.name() == 'async_write' or e.name() == 'async_write_some':
                        fl = [a for a, v in e.facts.items() if a.op == 'fld' and a.a[0] is THIS and v is False and a.a[1] in [x['n'] for r in P.records_q.get(CH, []) for x in r['fields'] if x['t'] == 'bool']]
                        ctx.ob('one-write', name + ' started', bool(fl), e.loc(), 'a write is started without knowing that none is in progress; ' + pathstr(p))
                        ctx.ob('one-write', name + ' whole', e.name() == 'async_write', e.loc(), 'only part of the buffer may be written; ' + pathstr(p))
                        if not fl: continue
                        setb = [x for x in fl if known_true(E.rd(p.st, x), p.facts)]
                        ctx.ob('one-write', name + ' flagged', bool(setb), e.loc(), 'a write has been started and the flag %s does not tell; ' % [show(x) for x in fl] + pathstr(p))
                        if not setb: continue
                        flag = setb[0]; flags[flag] = 1
                        wb = [t.a[1] for b in p.tr[:i] if b.name() == 'buffer' for a in b.a for t in walk(a) if isq(t, 'data') or isq(t, 'size')]
                        wb = [t for t in dict.fromkeys(wb) if isinstance(t, Term)]
                        for x in wb:
                            if x.op != 'fld': continue
                            ctx.ob('one-write', name + ' buffer', swapped(p.tr, i, x) is not None or any(q.k == 'set' and q.o is x for q in p.tr[:i]), e.loc(), 'the buffer given to the write is not what was queued; ' + pathstr(p))
                        for a in e.a:
                            if a.op != 'lam' or a in seen: continue
                            seen.add(a)
                            for q in E.run_lambda(a, fresh(E, p), []):
                                again = [x for x in q.tr if x.name() == 'async_write']; reset = E.rd(q.st, flag); off = known_false(reset, q.facts)
                                failed = any(x.k == 'threw' for x in q.tr)
                                if failed:
                                    ctx.ob('one-write', name + ' after an error', not again, w_(a), 'a further write is started after a failed one; ' + pathstr(q)); continue
                                if q.how != 'ret': continue
                                ctx.ob('one-write', name + ' completed', bool(again) != off, w_(a), ('the flag is reset although a further write has been started' if again else 'nothing is written and the flag still says that a write is in progress') + '; ' + pathstr(q))
                                if off and not again:
                                    es = [t for t, v in q.facts.items() if v and (t.op == 'empty' or isq(t, 'empty'))]
                                    ctx.ob('one-write', name + ' completed, idle', bool(es) or any(t.op in ('==', 'peq') for t in q.facts), w_(a), 'writing stops without the queue being known to be empty; ' + pathstr(q))
                                for x in wb:
                                    if x.op == 'fld' and again: ctx.ob('one-write', name + ' next', swapped(q.tr, q.tr.index(again[0]), x) is not None or any(y.k == 'set' and y.o is x for y in q.tr), w_(a), 'the next write does not send what has been queued; ' + pathstr(q))
                # while a write is in progress its buffer must stay
                for e in p.tr:
                    ts = [e.o] + list(e.a)
                    if e.k in ('call', 'set') and (e.name() in ('swap', 'clear', 'resize', 'assign', 'insert', 'push_back') or e.k == 'set'):
                        tgt = [t for t in (ts if e.name() == 'swap' else [e.o]) if t is not None and t.op == 'fld' and t.a[0] is THIS and t.a[1] in bufs_of(P)]
                        for t in tgt:
                            ok = any(v is False and a.op == 'fld' and a.a[0] is THIS for a, v in e.facts.items())
                            ctx.ob('one-write', name + ' untouched', ok, e.loc(), 'the write buffer is changed although a write may be in progress; ' + pathstr(p))
        # nobody else resets the flag
        ctx.engine(E)
def w_(a):
    n, _, fn = Engine.lams[a.a[0]]
    return at(fn, n)
def bufs_of(P): return [x['n'] for r in P.records_q.get(CH, []) for x in r['fields'] if 'buffer_t' in x['t'] or x['t'].startswith('std::vector<')]

def avail_fact(p_facts, ok_terms):
    for a, v in p_facts.items():
        if a.op == '<' and len(a.a) == 2:
            x, y = map(uncast, a.a)
            if v is False and isq(x, 'inputAvailable') and ok_terms(y): return True
            if v is True and isq(y, 'inputAvailable') and ok_terms(x): return True
    return False
def mentions(t, ts): return any(x in ts for x in walk(t))

def read_rules(ctx, P, insts):
    ctx.rule('receive', 'receiving mirrors the frame: the size field is awaited first, each announced part is decoded only when as many bytes as announced are there, the instance is of the type the header names in the registry of the channel, header and instance are delivered together exactly once, and no state of an earlier message is decoded into')
    ctx.rule('read', 'asyncRead keeps the unread bytes, reads behind them, counts what it read and calls its handler only when enough is available')
    for cls in insts:
        v1 = 'TransmissionFormat::v1' in cls; ver = 'v1' if v1 else 'v2'
        fs = [f for f in P.fns.values() if f.cls == cls and last(f.q) == 'asyncReceiveImpl' and f.b is not None and not f.is_lambda]
        E = Engine(P, opaque=lambda f: f.clsq != CH or last(f.q) == 'asyncRead', this_cls=cls)
        def after(E, st, e):
            if e.k == 'call' and e.name() == 'deserialize' and e.a:
                for l in [x for x in (e.extra or []) if isinstance(x, Term)]:
                    if l.op in ('fld', 'var', 'tmp'): E.write(st, l, T('ret', 'decoded', st.n, e.ret))
        E.after = after
        for f in fs:
            todo = [(p, None, 0, None) for p in E.run(f)]; done = 0
            first = [e.a[0] for p, *_ in todo for e in p.tr if e.name() == 'asyncRead']
            for t in first:
                ctx.ob('receive', ver + ' size field', uncast(t).op == 'int' and int(uncast(t).a[0]) == (2 if v1 else 5), at(f), '%s bytes are awaited for the size field, %d are written' % (show(t), 2 if v1 else 5))
            todo = [(p, ()) for p, *_ in todo]
            while todo and done < 300:
                p, hist = todo.pop(); done += 1
                hist = judge(ctx, P, f, p, v1, ver, hist)
                if hist is None: continue
                for e in p.tr:
                    if e.name() == 'asyncRead' and len(e.a) > 1 and e.a[1].op == 'lam':
                        st = p.st.fork(); st.tr = (); st.facts = {k: v for k, v in st.facts.items() if False}
                        for q in E.run_lambda(e.a[1], st, []): todo.append((q, hist + (('wait', e.a[0]),)))
        ctx.engine(E)
        asyncread(ctx, P, cls, ver)
    ctx.need('receive', 4)

def judge(ctx, P, f, p, v1, ver, hist):
    """hist: consumption groups so far: ('got', set of terms) and ('wait', n)"""
    h = list(hist)
    if any(e.name() == 'asyncRead' for e in p.tr) and not any(x[0] == 'wait' for x in h) and not any(e.name() in ('deserialize', 'setInput') for e in p.tr): return tuple(h)
    inst = {}; groups = sum(1 for x in h if x[0] == 'got'); delivered = 0
    lastwait = h[-1][1] if h and h[-1][0] == 'wait' else None
    covered = lastwait is not None and (not any(x[0] == 'got' for x in h) or mentions(lastwait, [x[1] for x in h if x[0] == 'got'][-1]) or True)
    if lastwait is not None and any(x[0] == 'got' for x in h):
        g = [x[1] for x in h if x[0] == 'got'][-1]
        ctx.ob('receive', '%s part %d awaited' % (ver, groups), mentions(lastwait, g), at(f), '%s bytes are awaited, which is not the size announced by the part before' % show(lastwait))
    types = ['size', 'transport header', 'instance'] if v1 else ['size', 'header', 'instance']
    idata = set()
    for e in p.tr:
        n = e.name()
        if n == 'inputData': idata.add(e.ret); continue
        cons = None
        if n == 'deserialize' and e.k == 'call': cons = {e.ret}
        elif n == 'setInput' and e.k == 'call': cons = set(idata)
        if cons is not None:
            k = groups
            if k == 0: pass
            elif k == 1 or v1:
                g = [x[1] for x in h if x[0] == 'got'][-1]
                okf = (h[-1][0] == 'wait') or avail_fact(e.facts, lambda t: mentions(t, g))
                ctx.ob('receive', '%s part %d (%s) complete' % (ver, k, types[min(k, 2)]), okf, e.loc(), 'the %s is decoded without knowing that as many bytes as announced are available; ' % types[min(k, 2)] + pathstr(p))
            if e.a and n == 'deserialize':
                a = e.a[0]
                if struct_type(a) in ('DotsTransportHeader', 'DotsHeader') and a.op in ('struct', 'new'): pass
                elif k == 1 and v1:
                    ctx.ob('receive', ver + ' fresh transport header', a.op in ('struct', 'new'), e.loc(), 'the transport header is decoded into %s, whose properties of an earlier message remain; ' % show(a)[:80] + pathstr(p))
                if k == 1 and v1:
                    for l in (e.extra or []):
                        if isinstance(l, Term) and l.op in ('fld', 'var', 'tmp'): cons.add(T('x', l))
                    cons |= {x for x in p.st.heap.values() if isinstance(x, Term) and x.op == 'ret' and e.ret in x.a} | {x for x in p.st.env.values() if isinstance(x, Term) and x.op == 'ret' and e.ret in x.a}
                o = a.a[0] if a.op == 'deref' else a
                if o.op == 'new' and str(o.a[0]).endswith('AnyStruct'):
                    inst[o] = e
                    ok, why = typed(p, o, h, cons)
                    ctx.ob('receive', ver + ' type', ok, e.loc(), why + '; ' + pathstr(p))
            h.append(('got', cons)); groups += 1
        if n == 'processReceive' and e.k == 'call':
            delivered += 1
            t = e.a[0]
            got = [x[1] for x in h if x[0] == 'got']
            ctx.ob('receive', ver + ' delivered', groups == 3, e.loc(), 'a transmission is delivered after %d decoded parts; ' % groups + pathstr(p))
            if t.op == 'new' and len(t.a) >= 3:
                hd, ins = t.a[1], t.a[2]
                ctx.ob('receive', ver + ' delivered instance', ins in inst or ins.op != 'new', e.loc(), 'the instance delivered (%s) is not the one decoded; ' % show(ins)[:80] + pathstr(p))
                ctx.ob('receive', ver + ' delivered header', len(got) > 1 and mentions(hd, got[1]) or hd.op not in ('struct', 'new'), e.loc(), 'the header delivered (%s) is not the one decoded; ' % show(hd)[:80] + pathstr(p))
    if groups == 3 and p.how == 'ret': ctx.ob('receive', ver + ' once', delivered == 1, at(f), 'a complete message is delivered %d times; ' % delivered + pathstr(p))
    if any(e.name() == 'asyncRead' for e in p.tr): ctx.ob('receive', ver + ' awaits once', sum(1 for e in p.tr if e.name() == 'asyncRead') == 1 and not delivered, at(f), 'more than one read is started; ' + pathstr(p))
    elif p.how == 'ret' and hist and not delivered: ctx.ob('receive', ver + ' goes on', False, at(f), 'neither a further read nor a delivery follows; ' + pathstr(p))
    return tuple(h)

def typed(p, o, h, cons):
    t = o.a[1] if len(o.a) > 1 else None
    while t is not None and t.op in ('deref', 'cast'): t = t.a[-1]
    if t is None or t.op not in ('ret', 'pc'): return True, ''
    for e in p.tr:
        if e.ret is t and last(e.q) in ('getStructType', 'findStructType', 'getType', 'findType'):
            reg = [x for x in p.tr if x.ret is e.o]
            if e.o is not None and isq(e.o, 'registry') and reg and reg[0].o is not THIS: return False, 'the type is looked up in the registry of %s' % show(reg[0].o)
            got = [x[1] for x in h if x[0] == 'got']
            g = got[1] if len(got) > 1 else set()
            if any(x.op == 'fld' and x.a[1] == 'typeName' for x in walk(e.a[0])):
                if not mentions(e.a[0], g): return False, 'the type name %s is not that of the header decoded before' % show(e.a[0])
                return True, ''
            return False, 'the type is looked up by %s, not by the typeName of the header' % show(e.a[0])
    return True, ''

def asyncread(ctx, P, cls, ver):
    fs = [f for f in P.fns.values() if f.cls == cls and last(f.q) == 'asyncRead' and f.b is not None and not f.is_lambda]
    E = Engine(P, opaque=lambda f: f.clsq != CH or last(f.q) in ('asyncRead', 'asyncReceiveImpl'), this_cls=cls, may_throw=lambda e: e.name() == 'verifyErrorCode',
               after_throw=lambda E, s, e: E.emit(s, 'threw', e.q, e.o, (), e.node))
    for f in fs[:1]:
        req = T('par', f.ps[0]['n']); name = ver + ' asyncRead'
        hd = f.ps[1]['n']
        def enough(facts): return avail_fact(facts, lambda t: t is R)
        for p in E.run(f):
            R = par_of(p, f.ps[0]['n'])
            for e in p.tr:
                lams = [x for x in e.a if x.op == 'lam']
                if e.name() == 'async_read_some' or e.name() == 'async_read':
                    before(ctx, p, e, name, R)
                    for a in lams:
                        st = p.st.fork(); st.tr = (); 
                        st.facts = {}
                        n, _, fn = Engine.lams[a.a[0]]; 
                        for q in E.run_lambda(a, st, [T('par', '#ec'), T('par', '#bytes')]): later(ctx, q, a, name, R, hd)
                elif lams and e.name() in ('dispatch', 'post', 'defer'):
                    ctx.ob('read', name + ' dispatched', enough(e.facts), e.loc(), 'the handler is dispatched without the required bytes being available; ' + pathstr(p))
            if not any(e.name() in ('async_read_some', 'async_read', 'dispatch', 'post', 'defer', 'invoke') for e in p.tr) and p.how == 'ret':
                ctx.ob('read', name + ' does something', any(e.name() == 'operator()' for e in p.tr), at(f), 'neither a read nor the handler follows; ' + pathstr(p))
    ctx.engine(E)
def par_of(p, n):
    return T('par', n)
def linear(t):
    """linear form over opaque quantities"""
    t = uncast(t)
    if t.op == 'int': return I(int(t.a[0]))
    if t.op in ('+', '-') and len(t.a) == 2: return linear(t.a[0]).plus(linear(t.a[1]), 1 if t.op == '+' else -1)
    return Lin({t: 1})
def before(ctx, p, e, name, R):
    i = p.tr.index(e)
    si = [x for x in p.tr[:i] if x.name() == 'setInput']; bf = [x for x in p.tr[:i] if x.name() == 'buffer']; rs = [x for x in p.tr[:i] if x.name() == 'resize']
    if bf and len(bf[-1].a) == 2:
        ptr, n = linear(bf[-1].a[0]), linear(bf[-1].a[1])
        datas = [k for k in ptr if isinstance(k, Term) and isq(k, 'data')]
        if len(datas) == 1 and ptr[datas[0]] == 1:
            off = ptr.plus(Lin({datas[0]: 1}), -1)
            ok = len(off) == 1 and list(off.values()) == [1] and isq(list(off)[0], 'inputAvailable')
            ctx.ob('read', name + ' behind the unread bytes', ok, bf[-1].loc(), 'bytes are read to %s, not behind the unread bytes; ' % show(bf[-1].a[0]) + pathstr(p))
            szs = [k for k in n if isinstance(k, Term) and isq(k, 'size')]
            if len(szs) == 1 and ok:
                rest = n.plus(Lin({szs[0]: 1}), -1)
                ctx.ob('read', name + ' room', n[szs[0]] == 1 and rest.plus(off).norm() == {}, bf[-1].loc(), 'up to %s bytes are read into the room behind the unread bytes; ' % show(bf[-1].a[1]) + pathstr(p))
            if si and ok:
                a = si[-1].a
                if len(a) == 2:
                    ctx.ob('read', name + ' unread count', linear(a[1]) == off and linear(a[0]) == Lin({datas[0]: 1}), si[-1].loc(), 'the input is set to (%s, %s), the unread bytes are %s at the begin of the buffer; ' % (show(a[0]), show(a[1]), ' '.join(show(k) for k in off)) + pathstr(p))
                    cp = [x for x in p.tr[:p.tr.index(si[-1])] if x.name() in ('copy', 'move', 'memmove', 'memcpy', 'copy_n', 'assign', 'erase')]
                    ctx.ob('read', name + ' unread bytes kept', bool(cp), si[-1].loc(), 'the unread bytes are not moved to the begin of the buffer; ' + pathstr(p))
    for r in rs:
        ctx.ob('read', name + ' grows', any(x is R for x in walk(r.a[0])), r.loc(), 'the buffer is resized to %s, which need not hold the required bytes; ' % show(r.a[0]) + pathstr(p))
def later(ctx, q, a, name, R, hd):
    if any(e.k == 'threw' for e in q.tr): 
        ctx.ob('read', name + ' failed', not any(e.name() in ('operator()', 'invoke') and e.o is not None and e.o.op == 'par' for e in q.tr), w_(a), 'the handler runs after a failed read; ' + pathstr(q)); return
    call = [e for e in q.tr if e.name() in ('operator()', 'invoke') and e.o is not None and e.o.op == 'par']
    again = [e for e in q.tr if e.name() == 'asyncRead']
    for e in call + again:
        si = [x for x in q.tr[:q.tr.index(e)] if x.name() == 'setInput' and len(x.a) == 2]
        ok = bool(si)
        if si:
            n = linear(si[-1].a[1]); d = linear(si[-1].a[0])
            ok = any(isinstance(k, Term) and k.op == 'par' and k.a[0] == '#bytes' and v == 1 for k, v in n.items()) and any(isinstance(k, Term) and isq(k, 'inputAvailable') and v == 1 for k, v in n.items()) and len(n) == 2 and len(d) == 1 and any(isinstance(k, Term) and isq(k, 'inputData') for k in d)
        ctx.ob('read', name + ' counts', ok, e.loc(), 'after a read the input is %s; ' % ([show(x)[:80] for x in si[-1].a] if si else 'unchanged') + pathstr(q))
    for e in call: ctx.ob('read', name + ' enough', avail_fact(e.facts, lambda t: t is R), e.loc(), 'the handler is called without the required bytes being available; ' + pathstr(q))
    for e in again: ctx.ob('read', name + ' again', uncast(e.a[0]) is R, e.loc(), 'the read goes on with %s instead of the required bytes; ' % show(e.a[0]) + pathstr(q))
    guard = any(v is True and (isq(t, 'expired') or isq(t, 'empty')) or t.op in ('==', 'peq', '<') and any(isq(x, 'use_count') for x in t.a if isinstance(x, Term)) for t, v in q.facts.items())
    if q.how == 'ret' and not call and not again and not guard: ctx.ob('read', name + ' goes on', False, w_(a), 'nothing follows the read; ' + pathstr(q))

WS = 'dots::io::WebSocketChannel'; LC = 'dots::io::LocalChannel'
def elements(tr, S, names):
    """the elements written to (read from) one document, in order"""
    out = []
    own = {S}
    for e in tr:
        if e.k != 'call': continue
        if e.name() in ('writer', 'reader') and e.o in own: own.add(e.ret); continue
        if e.o in own and e.name() in names: out.append(e)
    return out
def message_rules(ctx):
    P = load(ctx, ['lib/src/io/channels/WebSocketChannel.cpp'])
    ctx.rule('message', 'a web socket message is one array of header and instance, serialized with the attributes of that header into an empty output and written once as a whole; the receiver reads exactly that and delivers header and instance once, and no input is left over for the next message')
    E = Engine(P, opaque=lambda f: f.clsq != WS)
    for f in P.fns.values():
        if f.clsq != WS or f.b is None or f.is_lambda: continue
        n = last(f.q)
        if n == 'transmitImpl':
            for p in E.run(f):
                w = at(f)
                ser = [e for e in p.tr if e.k == 'call' and e.name() == 'serialize']
                if p.how != 'ret': continue
                if not ser: ctx.ob('message', 'transmit', any(x.name() in ('to_json',) for x in p.tr), w, 'nothing is serialized; ' + pathstr(p)); continue
                S = ser[0].o
                el = elements(p.tr, S, ('writeArrayBegin', 'serialize', 'writeArrayEnd', 'write', 'visit'))
                kinds = [e.name() for e in el]
                ctx.ob('message', 'transmit elements', kinds == ['writeArrayBegin', 'serialize', 'serialize', 'writeArrayEnd'], w, 'the message consists of %s; ' % kinds + pathstr(p))
                if kinds.count('serialize') == 2:
                    h, i = ser[0], ser[1]
                    ctx.ob('message', 'transmit header', is_hdr(base(h.a[0]), f), h.loc(), 'the first element is %s; ' % show(h.a[0]) + pathstr(p))
                    ctx.ob('message', 'transmit instance', is_inst(i.a[0], f), i.loc(), 'the second element is %s; ' % show(i.a[0]) + pathstr(p))
                    ctx.ob('message', 'transmit attributes', len(i.a) > 1 and is_attrs(i.a[1], f), i.loc(), 'the instance is serialized with %s instead of the attributes of its header; ' % [show(x) for x in i.a[1:]] + pathstr(p))
                if S.op == 'fld':
                    first = p.tr.index(ser[0]); outs = [e.ret for e in p.tr[:first] if e.name() == 'output' and e.o is S]
                    ctx.ob('message', 'transmit empty', any(e.name() in ('clear',) and e.o in outs or e.name() == 'resize' and e.o in outs for e in p.tr[:first]), w, 'the output of an earlier (possibly failed) message is not cleared; ' + pathstr(p))
                outs = [e for e in p.tr if e.name() == 'output' and e.o is S]
                wr = [e for e in p.tr if e.k == 'call' and e.name() in ('write', 'async_write', 'write_some') and e.o is not None and e.o.op == 'fld' or e.name() in ('write', 'async_write') and e.k == 'call' and e.o is None]
                ctx.ob('message', 'transmit once', len(wr) == 1 and wr[0].name() != 'write_some', w, 'the message is written by %s; ' % [e.name() for e in wr] + pathstr(p))
                if wr and outs:
                    i = p.tr.index(wr[0]); ends = [p.tr.index(e) for e in el]
                    ctx.ob('message', 'transmit complete', not ends or max(ends) < i, wr[0].loc(), 'the message is written before it is complete; ' + pathstr(p))
        if n == 'asyncReceiveImpl':
            for p in E.run(f):
                for e in p.tr:
                    for a in e.a:
                        if a.op != 'lam': continue
                        bufs = [x for x in e.a if x.op == 'fld']
                        drained = any(x.name() in ('consume', 'clear') and x.o in bufs for x in p.tr[:p.tr.index(e)])
                        st = p.st.fork(); st.tr = (); st.facts = {}
                        for q in E.run_lambda(a, st, [T('par', '#ec'), T('par', '#bytes')]):
                            rec = [x for x in q.tr if x.name() == 'processReceive']; de = [x for x in q.tr if x.name() == 'deserialize' and x.k == 'call']
                            if q.how != 'ret' or any(x.k == 'catch' for x in q.tr): continue
                            if not de and not rec: continue
                            w = w_(a)
                            ctx.ob('message', 'receive once', len(rec) == 1, w, 'delivered %d times; ' % len(rec) + pathstr(q))
                            if not de: continue
                            el = [x.name() for x in elements(q.tr, de[0].o, ('readArrayBegin', 'deserialize', 'readArrayEnd', 'visit'))]
                            ctx.ob('message', 'receive elements', el == ['readArrayBegin', 'deserialize', 'deserialize', 'readArrayEnd'], w, 'the receiver reads %s; ' % el + pathstr(q))
                            si = [x for x in q.tr if x.name() == 'setInput']
                            ctx.ob('message', 'receive input', len(si) == 1 and q.tr.index(si[0]) < q.tr.index(de[0]) and (len(si[0].a) < 2 or isq(uncast(si[0].a[1]), 'size') or any(x.op == 'par' and x.a[0] == '#bytes' for x in walk(si[0].a[1]))), w, 'the input decoded is not the message received: %s; ' % [[show(y) for y in x.a] for x in si] + pathstr(q))
                            if len(de) == 2 and len(rec) == 1:
                                H = de[0].a[0] if de[0].a else de[0].ret; I_ = de[1].a[0]; o = I_.a[0] if I_.op == 'deref' else I_
                                ctx.ob('message', 'receive fresh', H.op != 'fld', de[0].loc(), 'the header is decoded into %s, which keeps properties of an earlier message; ' % show(H) + pathstr(q))
                                t = rec[0].a[0]
                                if t.op == 'new' and len(t.a) >= 3:
                                    ctx.ob('message', 'receive delivers', t.a[1] is H and t.a[2] is o, rec[0].loc(), 'delivered is (%s, %s); ' % (show(t.a[1])[:60], show(t.a[2])[:60]) + pathstr(q))
                                ok, why = typed_by(q, o, H)
                                ctx.ob('message', 'receive type', ok, de[1].loc(), why + '; ' + pathstr(q))
                            ctx.ob('message', 'receive drained', drained or any(x.name() in ('consume', 'clear') and x.o in bufs for x in q.tr) or not bufs, w, 'the buffer still holds the message when the next one is read; ' + pathstr(q))
    ctx.engine(E); ctx.need('message', 6)
def typed_by(q, o, H, reg=None):
    t = o.a[1] if o.op == 'new' and len(o.a) > 1 else None
    while t is not None and t.op in ('deref', 'cast', 'some'): t = t.a[-1]
    if t is not None and t.op == 'addr': t = t.a[0]
    if t is None or t.op not in ('ret', 'pc'): return True, ''
    if isq(t, '_descriptor') or isq(t, 'descriptor'): return False, 'the instance has the type of %s, not the one of the receiving registry' % show(t)
    for e in q.tr:
        if e.ret is t and last(e.q) in ('getStructType', 'findStructType', 'getType', 'findType'):
            a = e.a[0]
            ok = any(x.op == 'fld' and x.a[1] == 'typeName' and base(x.a[0]) is H for x in walk(a))
            if not ok: return False, 'the type is looked up by %s, not by the typeName of the header' % show(a)
            if reg is not None and e.o is not None and isq(e.o, 'registry'):
                r = [x for x in q.tr if x.ret is e.o]
                if r and r[0].o is THIS: return False, 'the type is looked up in the registry of the sender'
    return True, ''
def local_rules(ctx):
    P = load(ctx, ['lib/src/io/channels/LocalChannel.cpp'])
    ctx.rule('local', 'the local channel hands the instance, serialized with the attributes of its header, and that header to the event loop of its peer, which decodes it into the type the header names in its own registry and delivers both once; without a peer everything but an error message is refused with an error')
    E = Engine(P, opaque=lambda f: f.clsq != LC)
    for f in P.fns.values():
        if f.clsq != LC or f.b is None or f.is_lambda or last(f.q) != 'transmitImpl': continue
        for p in E.run(f):
            w = at(f)
            post = [e for e in p.tr if e.name() in ('post', 'dispatch', 'defer') and any(a.op == 'lam' for a in e.a)]
            cb = [e for e in p.tr if e.name() in ('to_cbor', 'serialize')]
            lost = any(v is False and (isq(a, 'lock') or any(isq(x, 'lock') for x in walk(a))) or v is True and a.op in ('==', 'peq') and any(isq(x, 'lock') for x in walk(a)) or v is True and isq(a, 'expired') for a, v in p.facts.items())
            if not post:
                err = any(v is True and a.op in ('==', 'peq') and any(x.op == 'dyntype' for x in walk(a)) and any(x.op == 'enum' and str(x.a[0]).endswith('DotsMsgError') for x in walk(a)) for a, v in p.facts.items())
                ctx.ob('local', 'transmit without a peer', p.how == 'throw' or lost and err, w, 'a transmission is dropped silently; ' + pathstr(p)); continue
            ctx.ob('local', 'transmit once', len(post) == 1, w, 'handed over %d times; ' % len(post) + pathstr(p))
            for c in cb:
                if len(c.a) >= 1 and is_inst(c.a[0], f): ctx.ob('local', 'transmit attributes', len(c.a) > 1 and is_attrs(c.a[1], f), c.loc(), 'the instance is serialized with %s instead of the attributes of its header; ' % [show(x) for x in c.a[1:]] + pathstr(p))
            e = post[0]
            ctx.ob('local', 'transmit executor', any(isq(x, 'lock') for x in walk(e.a[0])) or not any(x.op == 'fld' and x.a[0] is THIS for x in walk(e.a[0])), e.loc(), 'the peer is called in the event loop of the sender (%s); ' % show(e.a[0]) + pathstr(p))
            a = [x for x in e.a if x.op == 'lam'][0]
            st = p.st.fork(); st.tr = (); st.facts = {}
            for q in E.run_lambda(a, st, []):
                rec = [x for x in q.tr if x.name() == 'processReceive']; dec = [x for x in q.tr if x.name() in ('from_cbor', 'deserialize') and x.k == 'call']
                gone = any(v is False and isq(t, 'lock') or v is True and isq(t, 'expired') or v is True and t.op in ('==', 'peq') and any(isq(x, 'lock') for x in t.a) for t, v in q.facts.items())
                if q.how != 'ret' or any(x.k == 'catch' for x in q.tr): continue
                if gone: ctx.ob('local', 'receive gone', not rec, w_(a), 'delivered to a peer that is gone; ' + pathstr(q)); continue
                ctx.ob('local', 'receive once', len(rec) == 1, w_(a), 'delivered %d times; ' % len(rec) + pathstr(q))
                if len(rec) != 1: continue
                ctx.ob('local', 'receive peer', rec[0].o is not THIS, rec[0].loc(), 'delivered to the sender; ' + pathstr(q))
                t = rec[0].a[0]
                if t.op == 'new' and len(t.a) >= 3:
                    ctx.ob('local', 'receive header', is_hdr(base(t.a[1]), f) and not changed(t.a[1]), rec[0].loc(), 'delivered with the header %s; ' % show(t.a[1])[:80] + pathstr(q))
                    o = t.a[2]
                    if dec:
                        d = dec[0]
                        ctx.ob('local', 'receive decoded', any(any(y is o for y in walk(x)) for x in d.a[1:]) and (not cb or any(d.a[0] is c.ret for c in cb) or not isq(d.a[0], 'to_cbor')), d.loc(), 'decoded is %s; ' % [show(x)[:60] for x in d.a] + pathstr(q))
                    elif o.op == 'new': ctx.ob('local', 'receive decoded', False, rec[0].loc(), 'the instance delivered is empty; ' + pathstr(q))
                    ok, why = typed_by(q, o, base(t.a[1]), True)
                    ctx.ob('local', 'receive type', ok, rec[0].loc(), why + '; ' + pathstr(q))
    ctx.engine(E); ctx.need('local', 5)
