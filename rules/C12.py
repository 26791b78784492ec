from .common import *
C = 'dots::Container'
CREATE = {'lastOperation': 'create', 'lastUpdateFrom': 'sender', 'createdFrom': 'sender', 'created': 'sentTime', 'modified': 'sentTime'}
UPDATE = {'lastUpdateFrom': 'sender', 'modified': 'sentTime'}

def expander(p):
    """expands results of calls into what they were computed from"""
    src = {}
    for e in p.tr:
        if e.ret is not None and e.ret.op == 'ret': src[e.ret] = e
    memo = {}
    def roots(t):
        if t in memo: return memo[t]
        memo[t] = r = {t}
        for x in walk(t):
            r.add(x)
            if x in src:
                e = src[x]
                for y in ((e.o,) if e.o is not None else ()) + tuple(e.a): r |= roots(y)
        memo[t] = r
        return r
    return roots

class SetAlg:
    """Truth table over one property x: is it valid in the stored instance (L), in the event's instance (R), named by the event (I)?"""
    def __init__(self, roots, isx, inst, header, pool):
        self.roots = roots; self.isx = isx; self.inst = inst; self.header = header; self.pool = pool
    def leaf(self, t):
        r = self.roots(t)
        if any(is_fld(x, 'attributes') for x in r): return 'I'
        n = t.a[0].rsplit('::', 1)[-1] if t.op in ('pc', 'ret') and isinstance(t.a[0], str) else ''
        if 'alid' in n:
            if any(x is self.inst for x in r): return 'R'
            if any(self.pool(x) for x in r): return 'L'
        if n in ('_properties', 'properties'): return True
        return None
    def ev(self, t, c):
        """value of x in set t under combination c (None: unknown)"""
        if t.op in ('pc', 'ret') and isinstance(t.a[0], str) and 'PropertySet::operator' in t.a[0]:
            op = t.a[0].rsplit('operator', 1)[-1]
            a = self.ev(t.a[1], c); b = self.ev(t.a[2], c) if len(t.a) > 2 and isinstance(t.a[2], Term) else None
            if op == '+': return True if a or b else None if a is None or b is None else False
            if op == '^': return False if a is False or b is False else None if a is None or b is None else True
            if op == '-': return False if a is False or b is True else None if a is None or b is None else True
            if op == '~': return None if a is None else not a
        if t.op in ('deref', 'some'): return self.ev(t.a[0], c)
        if t.op == 'pc' and t.a[0].endswith('::set') and self.isx(t): return True
        k = self.leaf(t)
        return c[k] if k in ('L', 'R', 'I') else k
    def atom(self, a, c):
        """truth of the atom: x <= S is recorded as not (S < x)"""
        if a.op == '<' and self.isx(a.a[1]):
            v = self.ev(a.a[0], c)
            return None if v is None else not v
        if a.op == 'pc' and isinstance(a.a[0], str) and len(a.a) > 2 and isinstance(a.a[2], Term) and self.isx(a.a[2]) and 'PropertySet' in a.a[0]: return self.ev(a.a[1], c)
        if a.op == 'empty' and mentions(a, self.isx) and 'operator^' in show(a.a[0]):
            v = self.ev(T('pc', 'PropertySet::operator^', *[y for y in a.a[0].a[1:3] if not self.isx(y)], None), c) if False else None
            return v
        return None

def check(ctx, tier):
    P = load(ctx, ['lib/src/Container.cpp'])
    ctx.rule('key', 'instances are looked up, ordered and identified by exactly their key properties')
    ctx.rule('create', 'an event with an unknown key stores the event\'s instance with the event\'s metadata')
    ctx.rule('merge', 'an event with a known key sets the present properties it names, clears the absent ones it names and leaves all others (decided by truth table per property)')
    ctx.rule('keep-key', 'merging never touches a key property')
    ctx.rule('metadata', 'an update or removal records operation, sender and time of the event and keeps who created the instance and when')
    ctx.rule('kept', 'nothing that can fail for lack of metadata happens while an instance is out of the container')
    ctx.rule('remove', 'a removal takes out exactly the instance with the key of the event, and returns it')
    ctx.rule('result', 'an insertion returns the stored element')
    ctx.rule('writers', 'only insertion, removal and clearing change the stored instances')
    ctx.rule('lookup', 'a lookup answers null exactly if no instance has the key, otherwise the stored element')
    store = one_field(P, C, 'std::map<dots::type::AnyStruct')
    E = Engine(P, this_cls=C, rec_loop=True, rec_deref=True, max_states=20000)
    # fields holding only non-key / key descriptors
    def filled(cls):
        """descriptor list field -> True (keys only) / False (non keys only)"""
        out = {}
        for f in P.fns.values():
            if f.clsq != cls or f.kind != 'ctor' or f.b is None: continue
            for p in E.run(f):
                inits = {e.a[0]: e.o.a[1] for e in p.tr if e.k == 'init' and e.a and e.o.op == 'fld'}
                for i, e in enumerate(p.tr):
                    if e.k == 'loopexit': ctx.ob('key', 'all properties classified', e.q == 'next', e.loc(), pathstr(p))
                    if e.k != 'call' or e.name() not in ('emplace_back', 'push_back', 'emplace', 'insert'): continue
                    fn = e.o.a[1] if e.o.op == 'fld' else inits.get(e.o)
                    if fn is None: continue
                    k = [v for a, v in e.facts.items() if a.op == 'pc' and a.a[0].endswith('::isKey')]
                    out.setdefault(fn, set()).add(k[-1] if k else None)
        return {k: v.pop() if len(v) == 1 else None for k, v in out.items()}
    nonkey = filled(C)
    # 'every property is classified': paths with isKey true (false) fill the key (non-key) list
    keycls = [r for r in P.records_q if r.startswith(C + '::') and r.endswith('key_compare')]
    KC = C + '::key_compare'
    keyf = filled(KC)
    ctx.ob('key', 'list of key properties', list(keyf.values()) == [True], 'lib/src/Container.cpp', 'the comparison does not use exactly the key properties: %s' % keyf)
    for f in P.fns.values():
        if f.clsq != KC or f.b is None or not f.q.endswith('operator()'): continue
        ctx.fns([f]); l, r = f.ps[0]['n'], f.ps[1]['n']
        for p in E.run(f):
            def less(a, x, y): return a.op in ('pc',) and a.a[0].endswith('::less') and len(a.a) > 3 and mentions(a.a[2], lambda t: t.op in ('par', 'var') and t.a[-1] == x) and mentions(a.a[3], lambda t: t.op in ('par', 'var') and t.a[-1] == y) and offs(a.a[2]) is offs(a.a[3]) and mentions(a.a[1], lambda t: t.op in ('elem', 'each'))
            def offs(t):
                o = [x for x in walk(t) if x.op == 'pc' and x.a[0].endswith('::offset')]
                return o[0] if o else None
            lt = [v for a, v in p.facts.items() if less(a, l, r)]; gt = [v for a, v in p.facts.items() if less(a, r, l)]
            if p.how != 'ret': ctx.ob('key', 'comparison', False, at(f), pathstr(p)); continue
            if p.val is TRUE: ctx.ob('key', 'less', lt == [True], at(f), 'compares less without a smaller key property; ' + pathstr(p))
            elif p.val is FALSE: ctx.ob('key', 'not less', True not in lt and (lt == [] or gt in ([True], [False])), at(f), 'compares not less without all key properties having been compared; ' + pathstr(p))
            else: ctx.ob('key', 'decided', False, at(f), pathstr(p))
            for e in p.tr:
                if e.k == 'loopexit': ctx.ob('key', 'every key property', e.q == ('next' if not (lt == [True] or gt == [True]) else 'return'), e.loc(), pathstr(p))
    ctx.need('key', 12)
    def pool(x): return under_this(x, store)
    def inst_of(f): return [T('par', x['n']) for x in f.ps if x['t'].endswith('type::Struct &')][0]
    def is_inst(f):
        n = [x['n'] for x in f.ps if x['t'].endswith('type::Struct &')][0]
        return lambda t: t.op in ('par', 'var') and t.a[-1] == n
    def known_of(p):
        """does the path know that the key is stored? (True/False/None)"""
        for a, v in p.facts.items():
            if a.op == '==' and mentions(a, pool):
                s = show(a)
                if 'equal_range' in s and '.first' in s and '.second' in s: return not v
                if ('find(' in s or 'lower_bound' in s) and 'end' in s: return not v
            if a.op == 'empty' and (mentions(a, lambda x: x.op == 'ret' and x.a[0].endswith('extract'))): return not v
            if a.op == 'has' and mentions(a, pool): return v
        return None
    def header_val(t, n): return mentions(t, lambda x: is_fld(x, n) and mentions(x.a[0], lambda y: y.op in ('par', 'var') and y.a[-1] == 'HDR'))
    def meta(p, f, want, op):
        fin = {}
        for e in p.tr:
            if e.k == 'set' and e.o.op == 'fld' and ('CloneInformation' in e.q): fin[e.o.a[1]] = (e.a[0], e)
        for n, s in want.items():
            v = fin.get(n)
            ctx.ob('metadata', '%s %s' % (op, n), v is not None and mentions(v[0], lambda x: is_fld(x, s)), v[1].loc() if v else at(f), '%s of the instance is %s after the event; %s' % (n, show(v[0])[:60] if v else 'not set', pathstr(p)))
        v = fin.get('lastOperation')
        ctx.ob('metadata', op + ' lastOperation', v is not None and mentions(v[0], lambda x: x.op == 'enum' and x.a[0].endswith('::' + op)), v[1].loc() if v else at(f), 'lastOperation is %s; %s' % (show(v[0]) if v else 'not set', pathstr(p)))
        for n in ('created', 'createdFrom'): ctx.ob('metadata', op + ' keeps ' + n, n not in fin, fin[n][1].loc() if n in fin else at(f), pathstr(p))
        ctx.ob('metadata', op + ' localUpdateTime', 'localUpdateTime' in fin and mentions(fin['localUpdateTime'][0], lambda x: x.op in ('ret', 'pc') and x.a[0].endswith('::Now')), at(f), pathstr(p))
    def merge(p, f, op):
        roots = expander(p); isinst = is_inst(f)
        src_ = {e.ret: e for e in p.tr if e.ret is not None and e.ret.op == 'ret'}
        def origin(t, d=0):
            """which of the stored instance (L), the event's instance (R) and the header's attributes (I) a value belongs to"""
            if d > 40: return set()
            if pool(t): return {'L'}
            if is_fld(t, 'attributes'): return {'I'}
            if isinst(t): return {'R'}
            if t in src_:
                e = src_[t]
                if e.o is not None and 'L' in origin(e.o, d + 1): return {'L'}
                ts = ((e.o,) if e.o is not None else ()) + tuple(e.a)
            elif t.op == 'pc':
                if isinstance(t.a[1], Term) and not t.a[0].rsplit('::', 1)[-1].startswith('operator') and 'L' in origin(t.a[1], d + 1): return {'L'}
                ts = [x for x in t.a[1:] if isinstance(x, Term)]
            else: ts = [x for x in t.a if isinstance(x, Term)]
            r = set()
            for x in ts: r |= origin(x, d + 1)
            return r
        def R(t): return origin(t) == {'R'}
        def L(t): return origin(t) == {'L'}
        el = [x for e in p.tr for x in ([e.o] if e.k == 'loopexit' and e.o is not None else []) if mentions(x, lambda y: y.op == 'fld') or True]
        el = [x for x in el if 'roperty' in show(x) and ('escriptor' in show(x))]
        if not el:
            emp = [a for a, v in p.facts.items() if a.op == 'empty' and v is True and 'escriptor' in show(a)]
            ctx.ob('merge', op + ': properties visited', bool(emp), at(f), 'the properties of the event are not merged; ' + pathstr(p)); return
        for e in p.tr:
            if e.k == 'loopexit': ctx.ob('merge', op + ': every property', e.q == 'next', e.loc(), 'the iteration over the properties is ended early; ' + pathstr(p))
        x0 = el[0]
        ik = [v for a, v in p.facts.items() if a.op == 'pc' and a.a[0].endswith('::isKey')]
        src = [y for y in walk(x0) if y.op == 'fld' and y.a[1] in nonkey]
        onlynon = bool(src) and nonkey[src[0].a[1]] is False
        iskey = False if onlynon else (ik[-1] if ik else None)
        eff = [e for e in p.tr if e.k in ('call', 'pure') and e.q.startswith('dots::type::') and e.name() in ('assign', 'construct', 'constructInPlace', 'destruct', 'swap', 'operator+=', 'operator-=', 'operator^=', 'set', '_clear', '_copy', '_assign', '_merge')]
        if eff: ctx.ob('keep-key', op, iskey is False, eff[0].loc(), 'a key property may be changed by a merge; ' + pathstr(p))
        if iskey is True: return
        def isx(t): return mentions(t, lambda y: y is x0) or (t.op == 'pc' and t.a[0].endswith('::set'))
        alg = SetAlg(roots, isx, None, None, pool)
        alg.inst = inst_of(f)
        alg.leaf0 = alg.leaf
        def leaf(t):
            r = roots(t)
            if origin(t) == {'I'}: return 'I'
            n = t.a[0].rsplit('::', 1)[-1] if t.op in ('pc', 'ret') and isinstance(t.a[0], str) else ''
            if 'alid' in n: return 'R' if R(t) else 'L' if L(t) else None
            return True if n in ('_properties', 'properties') else None
        alg.leaf = leaf
        for c in [dict(L=l, R=r, I=i) for l in (False, True) for r in (False, True) for i in (False, True)]:
            if any((lambda t: t is not None and t != v)(alg.atom(a, c)) for a, v in p.facts.items()): continue
            val = 'old' if c['L'] else None; valid = c['L']; bad = None
            for e in eff:
                n = e.name(); a = list(e.a)
                if n == 'assign':
                    if not c['L'] or val is None: bad = 'assigned to although not set'
                    val = 'new' if len(a) >= 2 and L(a[0]) and R(a[1]) else 'wrong value'
                elif n.startswith('construct'):
                    if val is not None: bad = 'constructed although set'
                    val = 'new' if len(a) >= 2 and L(a[0]) and R(a[1]) else 'wrong value'
                    if len(a) >= 2 and not c['R']: bad = 'copied from a property that is not set'
                elif n == 'destruct':
                    if val is None: bad = 'destroyed although not set'
                    val = None
                elif n in ('operator+=', 'operator-=') and L(e.o):
                    m = alg.ev(a[0], c) if a else None
                    if m is None: bad = 'marked as (in)valid by an unknown set'
                    elif m: valid = n == 'operator+='
                else: bad = 'unexpected effect ' + n
            want = (('new', True) if c['R'] else (None, False)) if c['I'] else (('old', True) if c['L'] else (None, False))
            d = 'property set before: %s, set in the event: %s, named by the event: %s' % (c['L'], c['R'], c['I'])
            ctx.ob('merge', op + ': ' + d, bad is None and (val, valid) == want, eff[0].loc() if eff else at(f), '%s; afterwards value %s, valid %s, expected %s %s; %s' % (d, val, valid, want, bad or '', pathstr(p)))
    def elements(p): return [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.o is not None and pool(e.o) and e.name() in ('extract', 'emplace', 'emplace_hint', 'insert', 'erase', 'clear', 'swap', 'merge', 'try_emplace', 'insert_or_assign', 'operator[]')]
    def is_key_arg(p, t, f):
        r = expander(p)(t); n = is_inst(f)
        return any(n(x) for x in r) and not any(is_fld(x, 'attributes') for x in r)
    for name in ('insert', 'remove'):
        for f in P.some(C + '::' + name):
            if len(f.ps) != 2: continue
            ctx.fns([f])
            for p in E.run(f):
                k = known_of(p); ch = elements(p)
                if p.how != 'ret': ctx.ob('kept', name, not any(e.name() in ('extract', 'erase') for i, e in ch), at(f), pathstr(p)); continue
                ext = [(i, e) for i, e in ch if e.name() in ('extract', 'erase')]; ins = [(i, e) for i, e in ch if e.name() not in ('extract', 'erase', 'clear')]
                for i, e in ext:
                    ctx.ob('key', name + ' by key', len(e.a) == 1 and is_key_arg(p, e.a[0], f), e.loc(), 'another instance is taken out: %s' % show(e.a[0]) if e.a else '')
                    end = [j for j, x in ins if j > i]; end = end[0] if end else len(p.tr)
                    seen = {x.o for x in p.tr[:i] if x.k == 'pderef'}
                    late = [x for x in p.tr[i + 1:end] if x.k == 'pderef' and x.o not in seen and not x.trys and any(y.op == 'par' for y in walk(x.o))]
                    ctx.ob('kept', name, not late, late[0].loc() if late else e.loc(), 'reading %s fails if it is missing, and the instance is lost; %s' % (show(late[0].o) if late else '', pathstr(p)))
                if name == 'insert':
                    if k is False:
                        ok = len(ins) == 1 and not ext
                        ctx.ob('create', 'stored once', ok, at(f), 'a new instance is stored %d times; %s' % (len(ins), pathstr(p)))
                        for i, e in ins[:1]:
                            n = is_inst(f)
                            ctx.ob('create', 'instance', any(n(x) or (x.op == 'new' and x.a and isinstance(x.a[0], str) and 'AnyStruct' in x.a[0] and any(n(y) for y in x.a[1:] if isinstance(y, Term))) for x in e.a), e.loc(), show(e)[:200])
                            ci = [x for a in e.a for x in walk(a) if x.op in ('struct', 'upd') and struct_type(x) == 'DotsCloneInformation']
                            if not ci:
                                fin = {}
                                for s in p.tr:
                                    if s.k == 'set' and s.o.op == 'fld' and 'CloneInformation' in s.q: fin[s.o.a[1]] = s.a[0]
                                get = lambda nn: fin.get(nn)
                            else: get = lambda nn: sfield(ci[0], nn)
                            for nn, s in CREATE.items():
                                v = get(nn)
                                good = v is not None and (mentions(v, lambda x: x.op == 'enum' and x.a[0].endswith('::create')) if s == 'create' else mentions(v, lambda x: is_fld(x, s)))
                                ctx.ob('create', nn, good, e.loc(), '%s is %s' % (nn, show(v) if v is not None else 'not set'))
                            ctx.ob('result', 'created', p.val.op in ('deref', 'fld', 'pc') and any(x is e.ret for x in walk(p.val)), at(f), 'returns %s' % show(p.val))
                    elif k is True:
                        ctx.ob('create', 'not replaced', not ins or bool(ext), at(f), 'a known instance is replaced; ' + pathstr(p))
                        if ext: ctx.ob('kept', 'put back', len(ins) == 1 and ins[0][0] > ext[0][0] and any(any(y is ext[0][1].ret for y in walk(x)) for x in ins[0][1].a), ext[0][1].loc(), 'an updated instance is not put back; ' + pathstr(p))
                        merge(p, f, 'update'); meta(p, f, UPDATE, 'update')
                        if ins: ctx.ob('result', 'updated', any(x is ins[0][1].ret for x in walk(p.val)), at(f), 'returns %s' % show(p.val))
                    else: ctx.ob('create', 'decided by key', False, at(f), 'the event is applied without looking for its key; ' + pathstr(p))
                else:
                    if k is False: ctx.ob('remove', 'unknown', not [e for i, e in ch if not (e.name() == 'extract')], at(f), 'removing an unknown instance changes the container; ' + pathstr(p))
                    elif k is True:
                        ctx.ob('remove', 'taken out', len(ext) == 1 and not ins and ext[0][1].name() == 'extract', at(f), pathstr(p))
                        if ext: ctx.ob('remove', 'returned', any(x is ext[0][1].ret for x in walk(p.val)), at(f), 'returns %s' % show(p.val))
                        merge(p, f, 'remove'); meta(p, f, UPDATE, 'remove')
                    else: ctx.ob('remove', 'decided by key', False, at(f), pathstr(p))
    ctx.need('merge', 12); ctx.need('metadata', 16); ctx.need('create', 6); ctx.need('remove', 3); ctx.need('kept', 4); ctx.need('keep-key', 2)
    # lookups
    for name in ('findClone', 'find'):
        for f in P.some(C + '::' + name):
            if len(f.ps) != 1 or f.b is None: continue
            ctx.fns([f])
            for p in E.run(f):
                k = known_of(p)
                if p.how != 'ret': ctx.ob('lookup', name, False, at(f), pathstr(p)); continue
                if k is None: ctx.ob('lookup', name, False, at(f), 'answered without looking; ' + pathstr(p)); continue
                ctx.ob('lookup', name, (p.val is NULL) == (not k), at(f), pathstr(p))
                if k: ctx.ob('lookup', name + ' element', mentions(p.val, pool), at(f), 'answers %s' % show(p.val))
    ctx.need('lookup', 4)
    # other writers
    for f in P.fns.values():
        if f.clsq != C or f.b is None or f.kind in ('ctor', 'dtor') or f.q.rsplit('::', 1)[-1] in ('insert', 'remove', 'clear'): continue
        if f.acc == 'private': continue
        ps = E.run(f); ctx.fns([f])
        for p in ps:
            ch = elements(p)
            ctx.ob('writers', f.q.rsplit('::', 1)[-1], not ch, ch[0][1].loc() if ch else at(f), pathstr(p))
    ctx.need('writers', 6)
    ctx.engine(E)
