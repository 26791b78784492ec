from .common import *
UNITS = ['lib/src/serialization/formats/CborReader.cpp']
VIS = 'dots::type::TypeVisitor'
MUT = {'emplace', 'push', 'pop', 'push_back', 'pop_back', 'emplace_back', 'resize', 'clear', 'append', 'assign', 'erase', 'insert', 'operator+=', 'operator=', 'reset', 'swap', 'top', 'back', 'front'}

def shift(t):
    """a value as (base, offset): additions of constants are undone"""
    o = 0
    while isinstance(t, Term) and t.op in ('+', '-') and len(t.a) == 2 and isinstance(t.a[1], Term) and t.a[1].op == 'int':
        o += int(t.a[1].a[0]) * (1 if t.op == '+' else -1); t = t.a[0]
    return t, o

class Model:
    def __init__(self, ctx):
        P = self.P = load(ctx, UNITS, extra=['inst_state.cpp'])
        self.bycls = {}
        for f in P.fns.values():
            if f.b is not None and not f.is_lambda and f.cls: self.bycls.setdefault(f.cls, []).append(f)
        self.rec = {}
        for q, rs in P.records_q.items():
            for r in rs:
                if not q.startswith(('dots::serialization::', VIS)): continue
                for m in r['methods']:
                    f = P.fns.get(m['f'])
                    if f is not None: self.rec.setdefault(f.cls, r); break
        self.tab = {}
        for c in self.rec: self.tab.setdefault(c.replace(' ', ''), c)
        ser = []
        for c in sorted(self.rec):
            ch = self.chain(c)
            if any(x.split('<')[0] == VIS for x in ch) and c.split('<')[0] != VIS: ser.append(c)
        # only complete serializers: nothing derives from them
        inner = {x.replace(' ', '') for c in ser for x in self.chain(c)[1:]}
        self.ser = [c for c in ser if c.replace(' ', '') not in inner]
    def find(self, t):
        t = re.sub(r'^(const )?(struct |class )?', '', t or '').rstrip('&* ')
        return self.tab.get(t.replace(' ', ''))
    def chain(self, c):
        """the class and its bases"""
        out = [c]; i = 0
        while i < len(out):
            r = self.rec.get(out[i])
            for b in (r.get('bases') or [] if r else []):
                k = self.find(b) or b
                if k not in out: out.append(k)
            i += 1
        return out
    def fields(self, c):
        return [(k, f) for k in self.chain(c) for f in (self.rec[k]['fields'] if k in self.rec else [])]
    def methods(self, c): return [f for k in self.chain(c) for f in self.bycls.get(k, [])]

def root_field(n, names):
    while isinstance(n, dict):
        if n['k'] == 'mem' and n['n'] in names: return n['n']
        n = n.get('b') if n['k'] in ('mem', 'idx') else n.get('e') if n['k'] in ('un', 'cast', 'icast') else n.get('o') if n['k'] == 'call' and n['q'].rsplit('::', 1)[-1] in ('top', 'back', 'front', 'operator[]') else None
    return None

def state(M, c):
    """the fields of a reader or writer that its operations change"""
    names = {f['n'] for _, f in M.fields(c)}; out = set()
    for f in M.methods(c):
        if f.kind in ('ctor', 'dtor') or f.q.rsplit('::', 1)[-1].startswith(('set', 'operator')): continue
        lam = [g for g in M.P.fns.values() if False]
        for n in nodes(f.b):
            if n['k'] == 'asg': r = root_field(n['l1'], names)
            elif n['k'] == 'un' and n['op'] in ('++', '--', 'p++', 'p--'): r = root_field(n['e'], names)
            elif n['k'] == 'call' and n.get('o') and n['q'].rsplit('::', 1)[-1] in MUT: r = root_field(n['o'], names)
            elif n['k'] == 'ret' and (f.rt or '').rstrip().endswith('&') and (not (f.rt or '').startswith('const ') or '*' in f.rt) and n.get('e'): r = root_field(n['e'], names)
            else: continue
            if r: out.add(r)
    return out

def check(ctx, tier):
    ctx.rule('level', 'every visit leaves the level of nested visits as it was, also when it is left by an exception')
    ctx.rule('rollback', 'a failed outermost serialization takes back what it wrote and the nesting of the writer')
    ctx.rule('reset', 'setting an input replaces everything a reader remembers of its previous input')
    ctx.rule('replace', 'an input that is refused changes nothing')
    M = Model(ctx); P = M.P
    if len(M.ser) < 4: raise AnalysisBroken('expected the serializers to derive from TypeVisitor, found %s' % M.ser)
    level = {f['n'] for c, r in M.rec.items() if c.split('<')[0] == VIS for f in r['fields'] if re.match(r'(unsigned |long |int|size_t|std::size_t)', f['t'])}
    if not level: raise AnalysisBroken('the visiting levels were not found')
    lv = [T('fld', THIS, n) for n in sorted(level)]
    def balanced(p):
        bad = []
        for l in lv:
            b, o = shift(p.st.heap.get(l, l))
            if b is not l or o != 0: bad.append((l, p.st.heap.get(l)))
        return bad
    scope = ('dots::serialization::', VIS)
    def values(g): return any('type::' in p['t'] or 'types::' in p['t'] or 'vector' in p['t'] and 'Descriptor' in p['t'] for p in g.ps)
    # what takes the value to visit is a visit of its own, everything else is part of it
    hook = lambda g: g.q.rsplit('::', 1)[-1].startswith('visit') and not g.is_lambda and g.ps and any(not x['t'].startswith('(lambda') and 'lambda at' not in x['t'] for x in g.ps)
    writer = lambda g: 'Writer' in (g.clsq or '') or 'Reader' in (g.clsq or '')
    def inline(root):
        def i(g):
            if not (g.clsq or '').startswith(scope) and not g.is_lambda: return False
            if writer(g) and g.q.rsplit('::', 1)[-1].startswith(('write', 'read', 'skip', 'try', 'consume', 'append', 'initiate', 'finalize')): return False
            if hook(g): return bool(g.acc != 2 and g.clsq == VIS and g.q.rsplit('::', 1)[-1] == 'visit' and root.clsq != VIS)
            return True
        return i
    may = lambda e: e.k == 'call' and (hookname(e.q) or e.q.startswith('dots::') and e.q.rsplit('::', 1)[-1].startswith(('write', 'read')))
    def hookname(q): return q.startswith('dots::') and q.rsplit('::', 1)[-1].startswith(('visit', '_apply'))
    vis = {}
    for f in P.fns.values():
        if f.b is not None and f.clsq == VIS and not f.is_lambda and f.ps and hook(f): vis[f.u] = f
    # which levels they leave changed when they fail (a least fixed point over the calls among them)
    loses = {u: frozenset() for u in vis}
    def lost(E, s, e):
        for l in loses.get(e.node.get('f') if e.node is not None else None, ()): s.heap[l] = T('unk', 'level after an exception', l, T('int', str(e.node.get('l', 0))))
    res = {}; todo = True
    while todo:
        todo = False
        for u, f in vis.items():
            if u not in res or any(n['k'] == 'call' and loses.get(n.get('f')) for n in nodes(f.b)):
                E = Engine(P, inline=inline(f), may_throw=may, after_throw=lost); res[u] = E.run(f)
                n = frozenset(l for p in res[u] if p.how == 'throw' for l, _ in balanced(p))
                if n != loses[u]: loses[u] = n; todo = True
    ran = []
    for u, f in vis.items():
        ran.append(f)
        short = f.cls.rsplit('::', 1)[-1].rstrip('>')
        bad = [(p, b) for p in res[u] for b in balanced(p) if p.how != 'throw']
        ctx.ob('level', '%s::%s<%s>' % (short, f.q.rsplit('::', 1)[-1], (f.ta or '')[:60]), not bad, at(f), 'leaves %s = %s; %s' % (show(bad[0][1][0]), show(bad[0][1][1]), pathstr(bad[0][0])) if bad else '')
    roots = []
    for c in M.ser:
        for k in M.chain(c):
            for f in M.bycls.get(k, []):
                if f.kind in ('ctor', 'dtor') or f.clsq == VIS or f.acc != 0: continue
                if any(n['k'] == 'call' and n.get('f') in vis and n['q'].rsplit('::', 1)[-1] == 'visit' for n in nodes(f.b)): roots.append((c, f))
    wr = {}; rd = {}
    for c in M.ser:
        for k, x in M.fields(c):
            t = M.find(x['t'])
            if t is None or not t.startswith('dots::serialization::') or any(y.split('<')[0] == VIS for y in M.chain(t)): continue
            ms = M.methods(t)
            if any(g.q.rsplit('::', 1)[-1] == 'setInput' for g in ms): rd.setdefault(c, []).append((x['n'], t))
            elif any(g.q.rsplit('::', 1)[-1].startswith('write') for g in ms): wr.setdefault(c, []).append((x['n'], t))
        if c not in rd or c not in wr: raise AnalysisBroken('the reader and the writer of %s were not found' % c)
    for c, f in roots:
        ran.append(f)
        E = Engine(P, inline=inline(f), may_throw=may, after_throw=lost); ctx.engine(E)
        const = not any(p['t'].endswith('&') and not p['t'].startswith('const ') for p in f.ps) and 'deserialize' not in f.q
        ps = E.run(f); bad = []; back = {}
        thr = [p for p in ps if p.how == 'throw']
        key = '%s::%s<%s>' % (c.rsplit('::', 1)[-1].rstrip('>'), f.q.rsplit('::', 1)[-1], (f.ta or '')[:60])
        if not thr: raise AnalysisBroken('no failing path of %s' % f.q)
        for p in ps:
            for b in balanced(p): bad.append((p, b))
        ctx.ob('level', key, not bad, at(f), 'leaves %s = %s; %s' % (show(bad[0][1][0]), show(bad[0][1][1]), pathstr(bad[0][0])) if bad else '')
        # outermost failing serializations
        for p in thr:
            if not nothing_visited(p, hookname): continue
            if nested(p, lv): continue
            for m, w in wr[c]:
                if not written(p, f, const): continue
                for s in sorted(state(M, w)):
                    l = T('fld', T('fld', THIS, m), s)
                    ok = restored(p, l, hookname)
                    k = '%s %s.%s' % (key, m, s)
                    if not ok and k not in back: back[k] = p
                    else: back.setdefault(k, None)
        for k, p in back.items(): ctx.ob('rollback', k, p is None, at(f), 'is not taken back when the operation fails; %s' % pathstr(p) if p else '')
    ctx.need('level', 20); ctx.need('rollback', 8)
    # inputs
    for c in M.ser:
        for m, t in rd[c]:
            st = state(M, t); own = set()
            for x in M.chain(t):
                if any(g.q.rsplit('::', 1)[-1] == 'setInput' for g in M.bycls.get(x, [])): own = {g.u for g in M.bycls[x] if g.q.rsplit('::', 1)[-1] == 'setInput'}; break
            fs = [(g, T('fld', THIS, m)) for x in M.chain(c) for g in M.bycls.get(x, []) if g.q.rsplit('::', 1)[-1] == 'setInput'] + [(P.fns[u], THIS) for u in sorted(own)]
            if not st or not fs: raise AnalysisBroken('the state of the reader %s was not found' % t)
            for f, obj in fs:
                E = Engine(P, inline=lambda g: (g.clsq or '').startswith('dots::serialization::')); ctx.engine(E); ran.append(f)
                ps = E.run(f)
                for s in sorted(st):
                    l = T('fld', obj, s)
                    def assigned(p): return any(is_set(e, l) for e in p.tr)
                    bad = [p for p in ps if p.how != 'throw' and not assigned(p)]
                    key = '%s::setInput(%s) %s' % (f.cls.rsplit('::', 1)[-1].rstrip('>'), ', '.join(x['t'][-40:] for x in f.ps), s)
                    ctx.ob('reset', key, not bad, at(f), 'keeps its value from the previous input; %s' % pathstr(bad[0]) if bad else '')
                ch = [(p, e) for p in ps if p.how == 'throw' for e in p.tr if any(is_set(e, T('fld', obj, x['n'])) for _, x in M.fields(t))]
                if any(p.how == 'throw' for p in ps):
                    ctx.ob('replace', '%s::setInput(%s)' % (f.cls.rsplit('::', 1)[-1].rstrip('>'), ', '.join(x['t'][-40:] for x in f.ps)), not ch, at(f), 'the input is refused after %s was replaced; %s' % (show(ch[0][1].o), pathstr(ch[0][0])) if ch else '')
    ctx.need('reset', 12)
    ctx.fns(ran)

def is_set(e, l):
    if e.o is not l: return False
    return e.k == 'set' or e.k == 'call' and e.q.rsplit('::', 1)[-1] in ('operator=', 'assign', 'reset', 'clear', 'swap')
def nothing_visited(p, hookname): return any(e.k == 'call' and hookname(e.q) for e in p.tr)
def written(p, f, const): return const
def nested(p, lv):
    """is the path known to belong to a visit within another one"""
    for a, v in p.facts.items():
        if a.op in ('==', 'peq', '<', '!='):
            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if not isinstance(x, Term) or not isinstance(y, Term) or y.op != 'int': continue
                b, o = shift(x)
                if b in lv:
                    k = int(y.a[0]) - o                      # about the level at the beginning
                    if a.op in ('==', 'peq') and k == 0 and v is False: return True
                    if a.op == '<' and x is a.a[1] and k >= 0 and v is True: return True     # k < level
                    if a.op == '<' and x is a.a[0] and k <= 1 and v is False: return True    # level >= 1
    return False
def restored(p, l, hookname):
    """is a part of the writer brought back, after the failure, to what was remembered at the beginning"""
    i = max(n for n, e in enumerate(p.tr) if e.k == 'call' and hookname(e.q))
    saved = set()
    for e in p.tr[:i]:
        if e.k == 'set':
            for a in e.a:
                if mentions(a, lambda x: x is l): saved |= {x for x in walk(a) if mentions(x, lambda y: y is l)}
    for v in p.st.env.values():
        if isinstance(v, Term) and mentions(v, lambda y: y is l): saved |= {x for x in walk(v) if mentions(x, lambda y: y is l)}
    for e in p.tr[i + 1:]:
        if e.k == 'call' and e.o is l and e.q.rsplit('::', 1)[-1] in ('resize', 'erase', 'assign') and e.a and any(x in saved for a in e.a for x in walk(a)): return True
        if is_set(e, l) and (not e.a or any(x in saved for a in e.a for x in walk(a))): return True
    for a, v in p.facts.items():
        if a.op in ('<', '==', 'peq') and len(a.a) == 2:
            x, y = a.a
            for s, c in ((x, y), (y, x)):
                if s in saved and isinstance(c, Term) and mentions(c, lambda z: z is l):
                    if a.op == '<' and s is x and v is False: return True
                    if a.op in ('==', 'peq') and v is True: return True
    return False
