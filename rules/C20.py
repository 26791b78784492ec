from .common import *
import re
UNITS = ['lib/src/type/DescriptorMap.cpp', 'lib/src/type/Registry.cpp', 'lib/src/ContainerPool.cpp']
DM, RG, CP = 'dots::type::DescriptorMap', 'dots::type::Registry', 'dots::ContainerPool'
ADD = ('try_emplace', 'emplace', 'insert', 'emplace_hint', 'insert_or_assign', 'operator[]')
DEL = ('erase', 'extract', 'clear')
NEW = ('try_emplace', 'emplace', 'insert', 'emplace_hint')

def sub(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term): yield x; st.extend(x.a)
        elif isinstance(x, (tuple, list)): st.extend(x)
def facts(p): return [(x, show(x), v) for x, v in p.facts.items() if isinstance(x, Term)]
def lookups(p):
    """what is known about the content of the indexes: (index, key) -> contained"""
    out = {}
    for x, s, v in facts(p):
        if x.op == 'has' and isinstance(v, bool): out[(show(x.a[0]), show(x.a[1]))] = v
    for x, s, v in facts(p):
        # an entry whose element is null counts as missing
        for k in list(out):
            if out[k] and v is False and s in ('*%s.find(%s).second' % k,): out[k] = False
    return out
def is_index(e, idx): return e.k == 'call' and isinstance(e.o, Term) and any(y.op == 'fld' and len(y.a) > 1 and y.a[1] in idx for y in [e.o])
def adds(p, idx): return [e for e in p.tr if is_index(e, idx) and e.q.rsplit('::', 1)[-1] in ADD] + [e for e in p.tr if e.k == 'set' and isinstance(e.o, Term) and any(y.op in ('idx', 'elem', 'at') and any(z.op == 'fld' and z.a[1] in idx for z in sub(y)) for y in sub(e.o))]
def dels(p, idx): return [e for e in p.tr if is_index(e, idx) and e.q.rsplit('::', 1)[-1] in DEL]
def added(p, e):
    """was the element really added: None unknown"""
    if e.ret is None: return None
    r = show(e.ret)
    for x, s, v in facts(p):
        if isinstance(v, bool) and any(y is e.ret for y in sub(x)):
            if s.endswith('.second'): return v
    return None
def named(t):
    """the object whose name a key is"""
    for x in sub(t):
        if x.op in ('pc', 'ret', 'call') and 'name' in str(x.a[0]).rsplit('::', 1)[-1]: return show(x.a[1]) if len(x.a) > 1 and isinstance(x.a[1], Term) else None
    m = re.match(r'(.*)\.name\(\)$', show(t))
    return m.group(1) if m else None

def check(ctx, tier):
    P = load(ctx, [u for u in UNITS if os.path.exists(os.path.join(program.REPO, u))])
    ctx.rule('found', 'what is registered is found, by every way of looking it up')
    ctx.rule('missing', 'what is not registered is reported as null or as error, as requested')
    ctx.rule('kind', 'a lookup of enum or structure types yields types of this kind only')
    ctx.rule('contains', 'asking for containment answers what a lookup would find')
    ctx.rule('unique', 'a type is never registered under the name of another one')
    ctx.rule('own-name', 'a type is registered under its own name, which lives as long as the type')
    ctx.rule('nested', 'the types a registered type refers to are registered as well')
    ctx.rule('notify', 'every new type is announced exactly once, after it was registered')
    ctx.rule('removal', 'removing affects what was named only, and is refused for what is not contained if requested')
    ctx.rule('indexes', 'all indexes of the containers change together')
    ctx.rule('copy', 'a copy of an index refers to elements of the copy')
    ctx.rule('policy', 'a registry starts with the types its policy names')
    E = Engine(P, inline=lambda f: f.clsq in (DM, RG, CP) or f.is_lambda or f.acc not in (0, 1, 2) or not f.clsq and any(str(f.file).endswith(u) for u in UNITS)); ctx.engine(E)
    fs = [f for f in P.fns.values() if f.clsq in (DM, RG, CP) and f.b is not None and not f.imp and not f.ta and f.acc == 0]
    seen = set()
    for f in fs:
        nm = f.q.rsplit('::', 1)[-1]; key = '%s(%s)%s' % (f.q.replace('dots::', ''), ','.join(q['n'] for q in f.ps), '' if '*' not in (f.rt or '') and '&' not in (f.rt or '') else ' const' if (f.rt or '').startswith('const') else '')
        idx = {'m_underlyingMap'} if f.clsq in (DM, RG) else {'m_pool', 'm_nameCache'}
        idx = set(indexes(P, f.clsq)) or idx
        if not f.ps or f.kind in ('ctor', 'dtor') or nm.startswith('operator'): continue
        arg = f.ps[0]['n']
        req = [q['n'] for q in f.ps if q['t'] == 'bool']
        if nm.startswith(('find', 'get')) or nm in ('contains', 'hasType'):
            ctx.fns([f])
            for p in E.run(f):
                L = {k: v for k, v in lookups(p).items() if re.search(r'\b%s\b' % arg, k[1])}
                a = dict((s, v) for x, s, v in facts(p)).get(req[0]) if req else None
                ad = adds(p, idx)
                if ad:
                    # get with insertion
                    ctx.ob('found', key, p.how == 'ret' and any(e.ret is not None and any(y is e.ret for y in sub(p.val)) for e in ad) or p.how == 'throw', at(f), 'what was added is not what is returned; ' + pathstr(p)); continue
                if not L and nm in ('contains', 'hasType') and p.how == 'ret' and counted(p.val, arg): ctx.ob('contains', key, True, at(f), ''); continue
                if not L:
                    ctx.ob('found', key, False, at(f), 'the result does not depend on what is registered; ' + pathstr(p)); continue
                hit = [k for k, v in L.items() if v]
                want = 'Enum' if 'Enum' in nm else 'Struct' if 'Struct' in nm else None
                kind = kind_fact(p, want) if want else True
                if nm in ('contains', 'hasType'):
                    val = truth(p)
                    if p.how == 'ret' and counted(p.val, arg): ctx.ob('contains', key, True, at(f), ''); continue
                    if val is None and any(show(p.val).replace('not (', '').startswith('*%s.find(%s).second' % k) for k in hit): val = True
                    ctx.ob('contains', key, p.how == 'ret' and val is bool(hit), at(f), 'answers %s although the name is %s; %s' % (val, 'contained' if hit else 'not contained', pathstr(p))); continue
                null = p.how == 'ret' and (p.val is None or show(p.val) in ('null()', '0', 'nullptr') or any(v is False and s == show(p.val) for x, s, v in facts(p)))
                if hit and kind is not False:
                    if want and kind is None: ctx.ob('kind', key, p.how != 'ret' or null, at(f), 'returned without knowing the kind of the type; ' + pathstr(p)); continue
                    ok = p.how == 'ret' and not null and any(show(y).lstrip('*&').startswith('%s.find(%s)' % k) for k in hit for y in sub(p.val))
                    ctx.ob('found', key, ok, at(f), 'what is registered is not returned; ' + pathstr(p))
                    if want: ctx.ob('kind', key, True, at(f), '')
                else:
                    must = nm.startswith('get') or a is True
                    if must: ctx.ob('missing' if not hit else 'kind', key, p.how == 'throw', at(f), 'no error although %s; %s' % ('nothing is registered' if not hit else 'the type is of another kind', pathstr(p)))
                    elif a is False or not req: ctx.ob('missing' if not hit else 'kind', key, null, at(f), '%s instead of null; %s' % (p.how, pathstr(p)))
                    else: ctx.ob('missing', key, False, at(f), 'the request for an error is not looked at; ' + pathstr(p))
        elif nm in ('tryEmplace', 'emplace', 'registerType', 'insert', 'add'):
            ctx.fns([f]); register(ctx, P, E, f, nm, key, idx, arg, req)
        elif nm in ('erase', 'deregisterType', 'remove'):
            ctx.fns([f])
            for p in E.run(f):
                L = {k: v for k, v in lookups(p).items() if re.search(r'\b%s\b' % arg, k[1])}
                d = dels(p, idx); a = dict((s, v) for x, s, v in facts(p)).get(req[0]) if req else True
                ctx.ob('removal', key + ' named', all(names_only(e, arg) for e in d) and not any(e.q.endswith('clear') for e in d), at(f), 'something else is removed: %s; %s' % ([show(e.a[0]) for e in d if e.a], pathstr(p)))
                ext = [e for e in d if e.q.endswith('extract') or e.q.endswith('erase') and e.ret is not None and any(y is e.ret for x, s, v in facts(p) for y in sub(x))]
                if ext:
                    hit = not any(s.startswith('empty(') and v is True and any(y is ext[0].ret for y in sub(x)) or v is False and any(y is ext[0].ret for y in sub(x)) and not s.startswith('empty(') and '==' not in s or (v is True and '== 0' in s and any(y is ext[0].ret for y in sub(x))) for x, s, v in facts(p))
                    main = hit
                else:
                    main = any(v for k, v in L.items() if 'nameCache' not in k[0])
                    if not L: ctx.ob('removal', key, bool(d), at(f), 'nothing is removed; ' + pathstr(p)); continue
                    if main: ctx.ob('removal', key, bool(d) and p.how == 'ret', at(f), 'what is registered is not removed; ' + pathstr(p))
                if not main:
                    if a is False: ctx.ob('removal', key, p.how == 'ret', at(f), 'an error that was not requested; ' + pathstr(p))
                    elif a is True: ctx.ob('removal', key, p.how == 'throw', at(f), 'no error for something that is not contained; ' + pathstr(p))
                    else: ctx.ob('removal', key, False, at(f), 'the request for an error is not looked at; ' + pathstr(p))
    # all indexes change together
    for f in fs:
        ix = indexes(P, f.clsq)
        if len(ix) < 2 or f.kind == 'ctor' or f.q.rsplit('::', 1)[-1].startswith('operator'): continue
        for p in E.run(f):
            if p.how == 'throw': continue
            for m in ix:
                for e in adds(p, {m}):
                    if added(p, e) is False or cond_index(ix, m): continue
                    for o in ix:
                        if o == m: continue
                        if added(p, e) is None and not adds(p, {o}): ctx.ob('indexes', '%s %s' % (f.q.replace('dots::', ''), o), False, at(f, e.node), 'added to %s only; %s' % (m, pathstr(p))); continue
                        b = adds(p, {o})
                        ok = bool(b) and any(e.ret is not None and any(y is e.ret for a in x.a if isinstance(a, Term) for y in sub(a)) for x in b) and all(named(x.a[0]) for x in b if x.a)
                        ctx.ob('indexes', '%s %s' % (f.q.replace('dots::', ''), o), ok, at(f, e.node), 'what is added to %s is not added to %s under its name; %s' % (m, o, pathstr(p)))
                for e in dels(p, {m}):
                    if any(s.startswith('empty(') and v is True and e.ret is not None and any(y is e.ret for y in sub(x)) for x, s, v in facts(p)): continue
                    if cond_index(ix, m): continue
                    for o in ix:
                        if o == m: continue
                        gone = bool(dels(p, {o})) or any(k[0].endswith(o) and v is False for k, v in lookups(p).items()) or any(v is False and '==' in s and o in s for x, s, v in facts(p))
                        ctx.ob('indexes', '%s %s' % (f.q.replace('dots::', ''), o), gone, at(f, e.node), 'what is removed from %s is still found by %s; %s' % (m, o, pathstr(p)))
    # copies of indexes that refer to elements
    for f in P.fns.values():
        if f.clsq != CP or f.b is None or not (f.kind == 'ctor' and len(f.ps) == 1 and 'const' in f.ps[0]['t'] and 'ContainerPool' in f.ps[0]['t']): continue
        full = [p for p in E.run(f) if p.how == 'ret' and any(t.startswith('empty(') and 'm_pool' in t and v is False for x, t, v in facts(p))]
        put = lambda p: any(e.k == 'call' and e.q.rsplit('::', 1)[-1] in ADD for e in p.tr)
        if any(put(p) for p in full):
            for p in full: ctx.ob('copy', 'ContainerPool all', put(p), at(f), 'an element of the copy is not found by its name; ' + pathstr(p))
        for p in E.run(f):
            for e in p.tr:
                if e.k == 'init' and str(e.q).rsplit('::', 1)[-1] in pointer_indexes(P, CP): ctx.ob('copy', 'ContainerPool %s' % e.q, not any(isinstance(a, Term) and any(y.op == 'fld' and y.a[1] == str(e.q).rsplit('::', 1)[-1] for y in sub(a)) for a in e.a), at(f), 'pointers to the elements of the other pool are copied; ' + pathstr(p))
    policy(ctx, P, E)
    for r, n in (('found', 8), ('missing', 8), ('kind', 4), ('contains', 2), ('unique', 3), ('own-name', 2), ('nested', 3), ('notify', 1), ('removal', 4), ('indexes', 2), ('policy', 3)): ctx.need(r, n)

def plain(s):
    while True:
        t = re.sub(r'^(list|string_view|basic_string_view|move|forward)\((.*)\)$', r'\2', s)
        t = re.sub(r'^[&*]+', '', t)
        t = re.sub(r"^new\('[^']*', (.*)\)$", r'\1', t)
        if t == s: return s
        s = t
def names_only(e, arg):
    if not e.a: return False
    s = plain(show(e.a[0])); m = re.match(r'[\w.]+\.find\((.*)\)$', s)
    if m: s = plain(m.group(1))
    elif show(e.o).rsplit('.', 1)[-1] == 'm_nameCache' and 'name' in s: return True
    return s in (arg, arg + '.name()')
def rec_fields(P, cls):
    out = []
    for r in P.records_q.get(cls, []):
        for x in r.get('fields') or []: out.append((x.get('n'), x.get('t') or ''))
    return out
def indexes(P, cls):
    if cls == RG: cls = DM
    return [n for n, t in dict(rec_fields(P, cls)).items() if re.match(r'(const )?std::(unordered_)?(multi)?map<', t)]
def pointer_indexes(P, cls): return [n for n, t in dict(rec_fields(P, cls)).items() if re.match(r'(const )?std::(unordered_)?map<', t) and cond_t(t)]
def cond_t(t): return bool(re.search(r',\s*(const )?dots::Container<[^>]*>\s*\*', t))
def cond_index(ix, m): return 'ame' in m
def counted(t, arg):
    s = show(t) if t is not None else ''
    if re.match(r'has\([\w.]+, (&|\*)*%s(\.name\(\))?\)$' % arg, s): return True
    c = r'[\w.]+\.(count|contains)\((&|\*)*%s(\.name\(\))?\)' % arg
    return bool(re.match(r'(<\(0, %s\)|not ?\(?%s == 0\)?|!\(%s == 0\)|%s|%s == 1|%s != 0)$' % ((c,) * 6), s)) and not s.startswith('%s == 0' % c)
def truth(p):
    s = show(p.val) if p.val is not None else ''
    if p.val is True or s == 'True': return True
    if p.val is False or s == 'False': return False
    for x, t, v in facts(p):
        if t == s and isinstance(v, bool): return v
    return None
def is_as(t, want):
    while isinstance(t, Term) and t.op in ('deref', 'addr') and t.a: t = t.a[0]
    return isinstance(t, Term) and t.op == 'pc' and str(t.a[0]).endswith('::as') and bool(re.search(r'%sDescriptor|Descriptor<(dots::|type::|::)*%s' % (want, want), ' '.join(map(str, [y.a for y in sub(t) if y.op == 'targ']))))
def kind_fact(p, want):
    if p.how == 'ret' and p.val is not None and is_as(p.val, want): return True
    for x, s, v in facts(p):
        if isinstance(v, bool):
            if re.search(r'\.type\(\) == %s$' % want, s) or re.search(r'%s == .*\.type\(\)$' % want, s): return v
            m = re.search(r'\.type\(\) == (\w+)$', s)
            if m and v: return False
            if is_as(x, want): return v
            if 'dynamic_cast' in s or 'dyn' in s: return v
    return None
def register(ctx, P, E, f, nm, key, idx, arg, req):
    for p in E.run(f):
        L = {k: v for k, v in lookups(p).items() if re.search(r'\b%s\b' % arg, k[1])}
        a = dict((s, v) for x, s, v in facts(p)).get(req[0]) if req else None
        ad = adds(p, idx)
        if any(s.startswith('*') and s.endswith('.second') and v is False and any(k[0] in s for k in lookups(p)) for x, s, v in facts(p)): continue   # an entry without a type
        hit = any(L.values())
        for e in ad:
            q = e.q.rsplit('::', 1)[-1]
            ctx.ob('unique', key, q in NEW or any(v is False for v in L.values()), at(f, e.node), 'replaces what is registered under the name; ' + pathstr(p))
            k = e.a[0] if e.a else None
            own = named(k) if isinstance(k, Term) else None
            vals = [x for x in p.tr if x.k == 'call' and x.q.endswith('shared_from_this') and x.ret is not None and any(y is x.ret for b in e.a if isinstance(b, Term) for y in sub(b))]
            ctx.ob('own-name', key, own is not None and (any(show(x.o) == own for x in vals) or any(own.lstrip('*') in show(b) for b in e.a[1:] if isinstance(b, Term))), at(f, e.node), 'the key %s is not the name of the type that is stored; %s' % (show(k) if k is not None else '', pathstr(p)))
        if hit:
            ctx.ob('unique', key, not [e for e in ad if e.q.rsplit('::', 1)[-1] not in NEW], at(f), 'registered although the name is taken; ' + pathstr(p))
            if a is True: ctx.ob('unique', key + ' refused', p.how == 'throw', at(f), 'a taken name is not refused; ' + pathstr(p))
            elif a is False: ctx.ob('unique', key + ' existing', p.how == 'ret' and any(('%s.find(%s)' % k) in show(p.val) for k in L), at(f), 'the type that has the name is not returned; ' + pathstr(p))
            elif req: ctx.ob('unique', key, False, at(f), 'the request to refuse a taken name is not looked at; ' + pathstr(p))
            ctx.ob('notify', key + ' known', not [e for e in p.tr if e.k == 'invoke'], at(f), 'a known type is announced; ' + pathstr(p))
            continue
        if not ad:
            ctx.ob('unique', key + ' added', p.how == 'throw', at(f), 'the type is not registered; ' + pathstr(p)); continue
        was = [added(p, e) for e in ad]
        if any(w is False for w in was):
            if nm == 'registerType' and a is False: ctx.ob('unique', key + ' existing', p.how == 'ret' and any(y is e.ret for e in ad if e.ret is not None for y in sub(p.val)), at(f), 'the type that has the name is not returned; ' + pathstr(p))
            elif nm != 'tryEmplace': ctx.ob('unique', key + ' refused', p.how == 'throw', at(f), 'a taken name is not refused; ' + pathstr(p))
            continue
        if nm == 'emplace': ctx.ob('unique', key + ' looked', all(w is not None for w in was) and p.how == 'ret', at(f), 'it is not looked at whether the name was taken; ' + pathstr(p))
        if nm == 'tryEmplace':
            s = show(p.val) if p.val is not None else ''
            ctx.ob('unique', key + ' result', p.how == 'ret' and '.second)' in s.replace('.second())', '.second)') or s == '' or 'second' in s, at(f), 'it is not told whether the type was added; ' + pathstr(p))
        if f.clsq != RG: continue
        if p.how != 'ret': continue
        # nested types
        i0 = p.tr.index(ad[0])
        rec = [e for e in p.tr if e.k == 'call' and e.q == f.q]
        kinds = {}
        for x, s, v in facts(p):
            if v is not True: continue
            m = re.search(r'\.type\(\) == (Vector|Enum|Struct)$', s)
            if m: kinds[m.group(1)] = True
        for e in p.tr:
            pass
        for x, s, v in facts(p):
            for k in ('Vector', 'Enum', 'Struct'):
                if v is True and is_as(x, k): kinds[k] = True
        for e in p.tr:
            if e.k == 'call' and e.q.rsplit('::', 1)[-1] == 'as' and e.ret is not None and p.facts.get(e.ret) is True:
                ta = ' '.join((e.node or {}).get('ta') or []) + ' ' + str((e.node or {}).get('t'))
                for k in ('Vector', 'Enum', 'Struct'):
                    if k + 'Descriptor' in ta: kinds[k] = True; break
        none = any(s.startswith('empty(') and 'propertyDescriptors' in s and v is True for x, s, v in facts(p))
        src = {'Vector': 'valueDescriptor', 'Enum': 'underlyingDescriptor', 'Struct': 'valueDescriptor'}
        for k in kinds:
            if k == 'Struct' and none: continue
            ok = any(any(src[k] in show(b) for b in e.a if isinstance(b, Term)) for e in rec)
            ctx.ob('nested', '%s %s' % (key, k), ok, at(f), 'the types a %s type refers to are not registered; %s' % (k.lower(), pathstr(p)))
            for e in rec: ctx.ob('nested', '%s %s known' % (key, k), len(e.a) < 2 or show(e.a[1]) == 'False', at(f, e.node), 'a nested type that is known already is refused; ' + pathstr(p))
            for e in rec: ctx.ob('nested', '%s %s order' % (key, k), p.tr.index(e) > i0, at(f, e.node), 'a type that refers to itself is registered over and over again; ' + pathstr(p))
        inv = [e for e in p.tr if e.k == 'invoke' or e.k == 'call' and e.q.endswith('Handler::operator()')]
        has = any('andler' in s and v is True for x, s, v in facts(p)); no = any('andler' in s and v is False for x, s, v in facts(p))
        if has or not no: ctx.ob('notify', key, len(inv) == 1 and p.tr.index(inv[0]) > i0 and any(arg in show(b) for b in inv[0].a if isinstance(b, Term)), at(f), 'the new type is announced %d times or too early; %s' % (len(inv), pathstr(p)))
def policy(ctx, P, E):
    for f in P.fns.values():
        if f.clsq != RG or not f.q.endswith('::IsUserType') or f.b is None or f.imp: continue
        ctx.fns([f])
        for p in E.run(f):
            if p.how != 'ret' or p.val is None: continue
            fc = facts(p); s = show(p.val); k = p.val if isinstance(p.val, bool) else True if s == 'True' else False if s == 'False' else None
            isS = any(v is True and (is_as(x, 'Struct') or t.endswith('.type() == Struct')) for x, t, v in fc)
            isV = any(v is True and (is_as(x, 'Vector') or t.endswith('.type() == Vector')) for x, t, v in fc)
            inn = [v for x, t, v in fc if re.search(r'internal\(\)\)?$', t) and not t.startswith('!')]
            if isS and not isV:
                ok = k == (not inn[0]) if k is not None and inn else 'internal' in s and not re.match(r'[^!]*internal\(\)$', s) if k is None else False
                ctx.ob('policy', 'IsUserType structure', ok, at(f), 'a structure is internal or not for another reason than its flag; ' + pathstr(p))
            elif isV:
                ok = 'valueDescriptor' in ' '.join(t for x, t, v in fc if not is_as(x, 'Vector')) + s or any(e.k == 'call' and e.q == f.q and any('valueDescriptor' in show(b) for b in e.a if isinstance(b, Term)) for e in p.tr)
                ctx.ob('policy', 'IsUserType vector', ok, at(f), 'the type of the elements is not looked at; ' + pathstr(p))
            elif any(v is False and is_as(x, 'Struct') for x, t, v in fc) and any(v is False and is_as(x, 'Vector') for x, t, v in fc):
                ctx.ob('policy', 'IsUserType other', k is not True, at(f), 'a fundamental type counts as type of the user; ' + pathstr(p))
    for f in P.fns.values():
        if f.clsq != RG or f.kind != 'ctor' or f.b is None or f.imp: continue
        pol = [q['n'] for q in f.ps if 'StaticTypePolicy' in q['t']]
        if not pol: continue
        ctx.fns([f])
        for p in E.run(f):
            fc = {s: v for x, s, v in facts(p)}
            which = [k for k in ('FundamentalOnly', 'InternalOnly', 'All') if fc.get('%s == %s' % (pol[0], k)) is True]
            if len(which) != 1: continue
            ad = adds(p, set(indexes(P, DM)))
            emp = any(s.startswith('empty(') and 'static_descriptors' in s and v is True for s, v in fc.items())
            if emp or any(added(p, e) is False for e in ad): continue
            got = bool(ad)
            if which[0] == 'All': exp = True
            elif which[0] == 'FundamentalOnly': exp = any('isFundamentalType()' in s and v is True for s, v in fc.items())
            else:
                vec = [x for x, t, v in facts(p) if v is True and is_as(x, 'Vector')]
                if vec and not any('IsUserType' in s for s in fc): ctx.ob('policy', which[0] + ' vectors', any('.internal()' in s for s in fc), at(f), 'vectors of internal types are treated like those of others; ' + pathstr(p)); continue
                if not vec and not any(is_as(x, 'Vector') for x, t, v in facts(p)) and not any(is_as(x, 'Struct') and v is True for x, t, v in facts(p)): ctx.ob('policy', which[0] + ' vectors', any('alueDescriptor' in s or 'IsUserType' in s for s in fc), at(f), 'the types of the elements of vectors are not looked at; ' + pathstr(p)); continue
                exp = not any(('.internal()' in s and v is False) or ('IsUserType' in s and v is True) for s, v in fc.items())
            ctx.ob('policy', which[0], got == exp, at(f), 'a type is %s; %s' % ('registered' if got else 'not registered', pathstr(p)))
