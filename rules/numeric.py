"""the numeric analysis (vf/num.py) of everything that decodes input: the readers of the wire formats, the serializers that use them, and the functions that parse texts"""
import os, re, time, multiprocessing
from .common import *
from vf.num import *

UNITS = ['lib/src/serialization/formats/CborReader.cpp', 'lib/src/io/auth/Digest.cpp', 'lib/src/io/auth/Nonce.cpp', 'lib/src/type/Uuid.cpp', 'lib/src/type/Chrono.cpp', 'lib/src/tools/Uri.cpp',
         'lib/src/io/channels/UdsListener.cpp', 'lib/src/io/channels/UdsChannel.cpp', 'lib/src/io/channels/TcpChannel.cpp', 'lib/src/io/channels/TcpListener.cpp', 'lib/src/io/channels/WebSocketChannel.cpp',
         'lib/src/type/EnumDescriptor.cpp', 'lib/src/type/DescriptorMap.cpp', 'lib/src/type/Registry.cpp', 'lib/src/tools/IpNetwork.cpp', 'lib/src/io/auth/LegacyAuthManager.cpp']
EXTRA = ['inst_serial.cpp']
# further units in which only the functions that take characters out of a view are looked at
LIB = ['lib/src/%s.cpp' % x for x in ('ContainerPool', 'GuestTransceiver', 'HostTransceiver', 'Transceiver', 'Connection', 'Requirements', 'Application', 'dots', 'Dispatcher', 'Container', 'io/Channel', 'io/DescriptorConverter', 'io/Io', 'io/Endpoint',
       'io/channels/WebSocketListener', 'io/channels/LocalListener', 'io/channels/LocalChannel', 'type/StructDescriptor', 'type/Descriptor', 'type/DynamicEnum', 'type/DynamicStruct', 'type/PropertyDescriptor', 'type/StaticDescriptor', 'type/Struct', 'type/AnyStruct', 'type/VectorDescriptor', 'serialization/SerializerException')]

def derived(P, base):
    """record names that derive from the given one"""
    out = set(); ch = True
    while ch:
        ch = False
        for q, rs in P.records_q.items():
            for r in rs:
                if q not in out and any(b.split('<')[0] == base or b.split('<')[0] in out for b in r.get('bases', [])): out.add(q); ch = True
    return out

def cursors(P):
    """the pointer fields a reader's setInput sets: name -> 'begin' | 'end'"""
    out = {}
    for f in P.fns.values():
        if f.q.endswith('::Reader::setInput') and len(f.ps) == 2 and f.b is not None:
            N = Num(P); n = N.sym(0, BIG); r = Region(n, False, True, 'input')
            for st, how, _ in N.run(f, ('o', 'this'), [Ptr(r, ZERO), n]):
                for k, v in st.m.items():
                    if k[0] == 'f' and k[1] == ('o', 'this') and isinstance(v, Ptr): out[k[2]] = 'end' if v.off == n else 'begin'
    # the begin of the input is what its accessor yields
    for f in P.fns.values():
        if f.q.endswith('::Reader::inputDataBegin') and f.b is not None:
            for n in nodes(f.b):
                if n['k'] == 'mem' and n['n'] in out and out[n['n']] == 'begin': out[n['n']] = 'start'
    return out

def hook(cur):
    def h(N, st, key, t, name, q):
        if key and key[0] == 'f' and key[2] in cur and pointee(t):
            k = ('in', key[1])
            if k not in N.memo:
                n = N.sym(0, BIG, False, 'size of the input'); N.memo[k] = Region(n, False, True, 'the input'); N.input_sizes.append(n)
            r = N.memo[k]; kind = cur[key[2]]
            if kind == 'end': return Ptr(r, r.size)
            if kind == 'start': return Ptr(r, ZERO)
            o = N.sym(0, BIG, False, 'the read position'); N.know(st, sub(r.size, o)); return Ptr(r, o)
        return None
    return h

FAMILY = {'C21': ('read', 'write', 'range', 'cursor', 'view', 'index', 'empty', 'terminated', 'document'), 'C22': ('narrow', 'alloc', 'terminate'), 'C31': ('terminated',)}

def reader_classes(P):
    d = derived(P, 'dots::serialization::Reader')
    if len(d) < 2: raise AnalysisBroken('expected the readers of the wire formats to derive from Reader, found %s' % sorted(d))
    return d

def reader_roots(P, rd):
    """what users of a reader may call"""
    return [f for f in P.fns.values() if f.b is not None and f.clsq in rd and f.acc == 0 and not f.is_lambda and f.kind not in ('dtor',) and not any(pointee(p['t']) for p in f.ps)]

def serializer_roots(P, rd):
    """members of the serializers that read with a reader"""
    out = []
    for f in P.fns.values():
        if f.b is None or f.clsq in rd or not f.clsq or not f.clsq.startswith('dots::serialization::') or f.is_lambda or 'Reader' in f.clsq: continue
        if any(n['k'] == 'call' and n.get('f') in P.fns and P.fns[n['f']].clsq in rd for n in nodes(f.b)): out.append(f)
    return out

def view_members(P, q):
    return any(is_view(x['t']) for r in P.records_q.get(q, []) for x in r['fields'])

def text_roots(P, rd):
    """functions that are given a text"""
    lib = {x[8:-4] for x in LIB} | {'Subscription', 'EventLoop', 'Timer', 'TransceiverBase', 'Event'}
    def known(f): return re.sub(r'^.*?/lib/(src|include/dots)/(.*)\.[a-z]+$', r'\2', f.file) not in lib
    return [f for f in P.fns.values() if f.b is not None and '/lib/' in f.file and known(f) and not f.is_lambda and f.clsq not in rd and not f.ta and not (f.clsq or '').startswith('dots::serialization::')
            and any(is_view(p['t']) or (is_str(p['t']) and 'const' in p['t'] or is_str(p['t'])) for p in f.ps)]

def json_roots(P, rd):
    """the reader of parsed JSON documents"""
    return [f for f in P.fns.values() if f.b is not None and f.clsq and f.clsq.startswith('dots::serialization::') and f.clsq not in rd and not f.is_lambda and f.acc == 0 and any(n['k'] == 'call' and n['q'].startswith('rapidjson::') for g in P.fns.values() if g.clsq == f.clsq and g.b is not None for n in nodes(g.b)) and 'Reader' in f.clsq]

def stream_roots(P, rd):
    """members of channels that size a buffer"""
    out = []
    for f in P.fns.values():
        if f.b is None or f.is_lambda or not (f.clsq or '').startswith('dots::io::') or not any(bare(p['t']) in INT for p in f.ps): continue
        if any(n['k'] == 'call' and n['q'].rsplit('::', 1)[-1] in ('resize', 'reserve', 'assign') and is_bytevec(n.get('ct') or '') for n in nodes(f.b)): out.append(f)
    return out

def shallow_roots(P, rd):
    """functions that take the characters out of a view"""
    return [f for f in P.fns.values() if f.b is not None and '/lib/' in f.file and not (f.clsq or '').startswith('dots::serialization::')
            and any(n['k'] == 'call' and n['q'].rsplit('::', 1)[0] == 'std::basic_string_view' and n['q'].endswith('::data') for n in nodes(f.b))]

def own_views(P, classes):
    """members that view into the text of their own object: somewhere behind its first character"""
    def h(N, st, key, t, name, q):
        if key and key[0] == 'f' and is_view(t or '') and key[1] == ('o', 'this') and N.stack and view_members(P, N.stack[0][0].clsq) and fields_of_type(P, N.stack[0][0].clsq, 'basic_string<'):
            z = N.sym(0, BIG, True, 'length of ' + key[2]); o = N.sym(1, BIG, False, 'offset of ' + key[2]); r = N.sym(0, BIG)
            return View(Region(add(add(o, z), r), False, True, 'the own text'), o, z)
        return None
    return h

_P = None
def _one(job):
    u, mode = job
    P, rd, cur = _P; f = P.fns[u]; t = time.time()
    h1 = hook(cur); h2 = own_views(P, rd)
    if mode == 'json': h1 = lambda N, st, key, t, name, q: ('element',) if key and key[0] == 'f' and 'rapidjson::GenericValue' in (t or '') and '*' in (t or '') else None
    N = Num(P, init_field=(lambda *a: h1(*a) or h2(*a)) if mode == 'text' else h1); N.input_sizes = []; args = None
    if mode == 'shallow': N.inline = lambda g: False
    if mode == 'stream': args = [N.typed(p['t'], True, p['n']) if bare(p['t']) in INT else None for p in f.ps]
    if mode == 'json':
        def on_call(N, n, st):
            name = n['q'].rsplit('::', 1)[-1]
            if n['q'].startswith('rapidjson::GenericValue') and n.get('o') is not None:
                for s, o in (N.ev(n['o'], st.fork()) if n.get('ar') else [(x, N.rd(x, k, '') if k is not None and k[0] not in ('p', 'val') else k[1] if k is not None else None) for x, k in N.lv(n['o'], st.fork())]):
                    if isinstance(o, tuple) and o and o[0] == 'element':
                        sizes = [v for k, v in s.m.items() if k[0] == 'f' and k[2] == '#size' and isinstance(v, L)]
                        N.ob('document', N.entails(s, mul(N.atend, -1)) or any(N.entails(s, mul(z, -1)) for z in sizes), n, 'the current value of the document is used although it may be the end of an array or object')
            if not n['q'].startswith('rapidjson::') or not name.startswith(('Is', 'Get')) or n.get('a'): return None
            t = bare(n.get('t') or '')
            if t not in INT: return None
            kind = name[2:] if name.startswith('Is') else name[3:]
            if kind not in ('Int', 'Uint', 'Int64', 'Uint64'): return None
            out = []
            for s, o in N.ev(n['o'], st):
                is_ = N.memo.setdefault(('json', kind), None) or N.sym(0, 1, False, 'Is' + kind); N.memo[('json', kind)] = is_
                if name.startswith('Is'): out.append((s, is_)); continue
                v = N.memo.setdefault(('jsonv', kind), None) or N.typed(t, True, 'a number of the document'); N.memo[('jsonv', kind)] = v
                N.need('narrow', s, [sub(is_, ONE)], n, 'a number is read as %s although it is not known to be one' % kind)
                out.append((s, v))
            return out
        N.on_call = on_call
    if mode == 'serializer':
        # the readers are analysed on their own: here they leave the position somewhere in the input and yield anything
        pos = [k for k, v in cur.items() if v == 'begin']
        N.inline = lambda g: g.q.startswith('dots::tools::') or (g.clsq or '').startswith('dots::serialization::') and g.clsq not in rd and 'Writer' not in g.clsq and not g.q.rsplit('::', 1)[-1].startswith(('visit', 'serialize', 'deserialize'))
        def on_call(N, n, st):
            g = P.fns.get(n.get('f'))
            if g is None or g.clsq not in rd: return None
            out = []
            for s, k in N.lv(n['o'], st) if n.get('o') is not None and not n.get('ar') else [(st, None)]:
                for s2, vs in N.evs(n.get('a') or [], s):
                    for p in pos:
                        if k is not None: s2.m.pop(('f', N.resolve(s2, k), p), None)
                    for x, y in zip(n.get('a') or [], g.ps):
                        if y['t'].endswith('&') and 'const' not in y['t']:
                            for s3, l in N.lv(x, s2)[:1]: N.havoc_obj(s2, l)
                    t = bare(n.get('t') or '')
                    if t == 'bool': out.extend([(s2.fork(), ONE), (s2, ZERO)])
                    elif t in INT: out.append((s2, N.typed(t, True, 'a number of the input')))
                    else: out.append((s2, N.result(s2, t)))
            return out
        N.on_call = on_call
    err = None; n = 0
    try: n = len(N.run(f, args=args))
    except Limit as e: err = str(e)
    return (u, mode, [(k[0], k[1], k[2], k[3], o[0], o[1].file if o[1] else f.file, o[3]) for k, o in N.obl.items()], dict(N.loops), sorted(N.visited), N.steps, n, err, time.time() - t)

def analyse(P, modes, procs=8):
    """obligations of all roots: (kind, function, template arguments, line) -> [ok, file, why, root]"""
    global _P
    rd = reader_classes(P); cur = cursors(P)
    if sorted(cur.values()) != ['begin', 'end', 'start']: raise AnalysisBroken('expected a begin, a position and an end of the input in the readers, found %s' % cur)
    jobs = []; seen = set()
    for m, fs in (('reader', reader_roots), ('serializer', serializer_roots), ('text', text_roots), ('json', json_roots), ('stream', stream_roots), ('shallow', shallow_roots)):
        if m not in modes: continue
        for f in sorted(fs(P, rd), key=lambda f: (f.file, f.line, f.u)):
            if f.u not in seen: seen.add(f.u); jobs.append((f.u, m))
    _P = (P, rd, cur)
    with multiprocessing.get_context('fork').Pool(procs) as pool: res = pool.map(_one, jobs, chunksize=1)
    return jobs, res

def decide(ctx, prop, modes):
    P = load(ctx, [u for u in UNITS + (LIB if 'shallow' in modes else []) if os.path.exists(os.path.join(program.REPO, u))], extra=EXTRA)
    jobs, res = analyse(P, modes)
    kinds = FAMILY[prop]; acc = {}; loops = {}; vis = set(); roots = {}
    for u, mode, obl, lp, visited, steps, n, err, dt in res:
        if err: raise AnalysisBroken('%s cannot be decided: %s' % (P.fns[u].short(), err))
        roots.setdefault(mode, set()).add(u); vis |= set(visited); loops.update(lp)
        for k, q, ta, line, ok, file, why in obl:
            if k not in kinds: continue
            # the memory of channels and the loops of what uses the readers are not decided here
            if mode == 'stream' and k != 'alloc' or k == 'terminate' and mode not in ('reader', 'json'): continue
            if k == 'terminated' and prop == 'C21' and mode == 'text': continue
            o = acc.setdefault((k, q, ta, file, line), [True, ''])
            if not ok and o[0]: o[0] = False; o[1] = why + '; analysed from %s' % P.fns[u].short()
    ctx.fns([P.fns[u] for u in vis if u in P.fns])
    for (k, q, ta, file, line), (ok, why) in sorted(acc.items(), key=str): ctx.ob(k, '%s%s:%s' % (q.replace('dots::', ''), '<%s>' % ta if ta else '', line), ok, '%s:%s' % (rel(file), line), why)
    for m, us in sorted(roots.items()): ctx.assume.append('%d entry points analysed as %s' % (len(us), m))
    if 'terminate' in kinds:
        for k, v in sorted(loops.items(), key=str): ctx.assume.append('loop of %s line %s: %s' % (k[0], k[1], v))
    return P, reader_classes(P)
