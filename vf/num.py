"""Abstract interpretation of integers, pointers and text ranges: values are linear expressions over symbols, a state carries
linear inequalities, loops are closed with inductively checked candidate invariants.  Nothing of the program is executed."""
import re
from .program import AnalysisBroken, rel

INT = {'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1),
       'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
       'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1), 'char8_t': (0, 255), 'std::byte': (0, 255), 'wchar_t': (-2**31, 2**31 - 1), '__int128': (-2**127, 2**127 - 1)}
SIZE = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'char8_t': 1, 'std::byte': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4,
        'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8}
BIG = 2**62
def bare(t):
    t = (t or '').strip()
    while True:
        o = t
        if t.startswith('const '): t = t[6:]
        if t.startswith('volatile '): t = t[9:]
        if t.endswith('&&'): t = t[:-2].strip()
        elif t.endswith('&'): t = t[:-1].strip()
        if t.endswith(' const'): t = t[:-6]
        if t == o: return t
def pointee(t):
    t = bare(t)
    if t.endswith('*const'): t = t[:-5]
    t = t.strip()
    return bare(t[:-1].strip()) if t.endswith('*') else None
def is_view(t): return bare(t).startswith('std::basic_string_view<char')
def is_str(t): t = bare(t); return t.startswith('std::basic_string<char') or t.startswith('std::__cxx11::basic_string<char') or t == 'std::string'
def is_bytevec(t): t = bare(t); return t.startswith(('std::vector<unsigned char', 'std::vector<char', 'std::vector<signed char'))
def arr_of(t):
    t = bare(t)
    m = re.match(r'^std::array<(.+), (\d+)(?:UL)?>$', t)
    if not m: m = re.match(r'^(.+?)\s*(?:\(&\))?\[(\d+)\]$', t)
    if m and bare(m.group(1)) in SIZE: return bare(m.group(1)), int(m.group(2))
    return None

class Limit(Exception): pass

class L:
    """linear expression with integer coefficients"""
    __slots__ = ('c', 't', 'h')
    def __init__(s, c=0, t=()): s.c = c; s.t = t; s.h = None
    def __hash__(s):
        if s.h is None: s.h = hash((s.c, s.t))
        return s.h
    def __eq__(s, o): return isinstance(o, L) and s.c == o.c and s.t == o.t
    def const(s): return s.c if not s.t else None
def lin(c, d): return L(c, tuple(sorted((k, v) for k, v in d.items() if v)))
def add(a, b, k=1):
    d = dict(a.t)
    for s, v in b.t: d[s] = d.get(s, 0) + k * v
    return lin(a.c + k * b.c, d)
def sub(a, b): return add(a, b, -1)
def mul(a, k): return L(a.c * k, tuple((s, v * k) for s, v in a.t)) if k else L(0)
def K(n): return L(n)
ONE = K(1); ZERO = K(0)

class Region:
    n = 0
    def __init__(s, size, nul=False, taint=False, name='', el=None): Region.n += 1; s.id = Region.n; s.size = size; s.nul = nul; s.taint = taint; s.name = name; s.el = el
class Ptr:
    def __init__(s, reg, off): s.reg = reg; s.off = off
    def __eq__(s, o): return isinstance(o, Ptr) and s.reg is o.reg and s.off == o.off
    def __hash__(s): return hash((s.reg.id, s.off))
class View:
    def __init__(s, reg, off, len): s.reg = reg; s.off = off; s.len = len
    def __eq__(s, o): return isinstance(o, View) and s.reg is o.reg and s.off == o.off and s.len == o.len
    def __hash__(s): return hash((s.reg.id, s.off, s.len))
class Str:
    """string or byte vector with its own memory"""
    def __init__(s, len, reg): s.len = len; s.reg = reg
    def __eq__(s, o): return isinstance(o, Str) and s.reg is o.reg and s.len == o.len
    def __hash__(s): return hash((s.reg.id, s.len))
class Rec:
    def __init__(s, f): s.f = f
    def __eq__(s, o): return isinstance(o, Rec) and s.f == o.f
    __hash__ = None
class Lam:
    def __init__(s, n, this, env): s.n = n; s.this = this; s.env = env
    def __eq__(s, o): return isinstance(o, Lam) and s.n is o.n
    __hash__ = None
class Ref:
    def __init__(s, key): s.key = key
    def __eq__(s, o): return isinstance(o, Ref) and s.key == o.key
    __hash__ = None

class S:
    __slots__ = ('m', 'facts', 'ne', 'fs', 'loop')
    def __init__(s): s.m = {}; s.facts = (); s.ne = (); s.loop = ()
    def fork(s):
        t = S(); t.m = dict(s.m); t.facts = s.facts; t.ne = s.ne; t.loop = s.loop; return t

class Num:
    def __init__(self, P, max_states=2500, depth=14, init_field=None, on_call=None):
        self.P = P; self.lo = []; self.hi = []; self.tn = []; self.nm = []; self.memo = {}; self.cache = {}
        self.obl = {}; self.visited = set(); self.stack = []; self.sinks = []; self.quiet = 0; self.max_states = max_states; self.depth = depth
        self.init_field = init_field; self.on_call = on_call; self.steps = 0; self.no = 0; self.loops = {}; self.rec = {}; self.inline = lambda f: True; self.lazy = None; self.rows = {}; self.loopmem = {}; self.atend = self.sym(0, 1, False, 'at the end')
    # ---------------------------------------------------------------- symbols and facts
    def sym(self, lo=None, hi=None, taint=False, name=''):
        self.lo.append(lo); self.hi.append(hi); self.tn.append(taint); self.nm.append(name); return L(0, ((len(self.lo) - 1, 1),))
    def typed(self, t, taint=False, name=''):
        r = INT.get(bare(t)); return self.sym(r[0], r[1], taint, name) if r else None
    def taint(self, v): return isinstance(v, L) and any(self.tn[s] for s, _ in v.t)
    def rng(self, v):
        lo = hi = v.c
        for s, k in v.t:
            a, b = self.lo[s], self.hi[s]
            if k < 0: a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi
    def infeasible(self, rows):
        """Fourier-Motzkin elimination over the rows (each >= 0); True only if there is no rational solution"""
        rows = set(rows)
        for _ in range(40):
            cnt = {}
            for r in rows:
                if not r.t:
                    if r.c < 0: return True
                for s, k in r.t:
                    p = cnt.setdefault(s, [0, 0]); p[0 if k > 0 else 1] += 1
            rows = {r for r in rows if r.t}
            if not rows: return False
            s = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x))
            P_ = []; N_ = []; rest = set()
            for r in rows:
                k = dict(r.t).get(s, 0)
                (P_ if k > 0 else N_ if k < 0 else rest).append((r, k)) if k else rest.add(r)
            if len(P_) * len(N_) > 400 or len(rest) > 500: return False
            for p, kp in P_:
                for n, kn in N_:
                    r = add(mul(p, -kn), n, kp)
                    g = 0
                    from math import gcd
                    for _, v in r.t: g = gcd(g, abs(v))
                    if g > 1: r = L(r.c // g, tuple((x, v // g) for x, v in r.t))
                    rest.add(r)
            rows = rest
        return False
    def entails(self, st, g):
        """g >= 0 in every concretisation of the state"""
        if not g.t: return g.c >= 0
        lo, hi = self.rng(g)
        if lo is not None and lo >= 0: return True
        key = (st.facts, g)
        if key in self.cache: return self.cache[key]
        rows = [sub(K(-1), g)]; syms = {s for s, _ in g.t}; todo = list(st.facts); ch = True
        while ch:
            ch = False; rest = []
            for f in todo:
                if any(s in syms for s, _ in f.t): rows.append(f); syms |= {s for s, _ in f.t}; ch = True
                else: rest.append(f)
            todo = rest
        for s in syms:
            if self.lo[s] is not None: rows.append(L(-self.lo[s], ((s, 1),)))
            if self.hi[s] is not None: rows.append(L(self.hi[s], ((s, -1),)))
        r = self.infeasible(rows)
        if len(self.cache) > 200000: self.cache.clear()
        self.cache[key] = r
        return r
    def know(self, st, g):
        """adds g >= 0; False if that is impossible"""
        if not g.t: return g.c >= 0
        lo, hi = self.rng(g)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        if g in st.facts: return True
        if self.entails(st, sub(K(-1), g)): return False
        st.facts = st.facts + (g,)
        for a in st.ne:
            for b in (a, mul(a, -1)):
                if self.entails(st, b):
                    st.ne = tuple(x for x in st.ne if x is not a)
                    return self.know(st, sub(b, ONE))
        return True
    def eq(self, st, a): return self.know(st, a) and self.know(st, mul(a, -1))
    def neq(self, st, a):
        if not a.t: return a.c != 0
        for b in (a, mul(a, -1)):
            if self.entails(st, b): return self.know(st, sub(b, ONE))
        st.ne = st.ne + (a,)
        return True
    def const(self, st, v):
        return v.c if isinstance(v, L) and not v.t else None
    def bounds(self, st, v):
        """small constant range of a value, if there is one"""
        lo, hi = self.rng(v)
        if len(v.t) == 1:
            s, k = v.t[0]; a, b = self.lo[s], self.hi[s]
            for f in st.facts:
                if len(f.t) == 1 and f.t[0][0] == s:
                    q = f.t[0][1]
                    if q > 0: x = -(f.c // q); a = x if a is None else max(a, x)
                    else: x = f.c // -q; b = x if b is None else min(b, x)
            if k < 0: a, b = b, a
            lo = None if a is None else v.c + k * a; hi = None if b is None else v.c + k * b
        return lo, hi
    # ---------------------------------------------------------------- obligations
    def ob(self, kind, ok, n, why=''):
        if self.quiet: return
        f = self.stack[-1][0] if self.stack else None
        key = (kind, f.q if f else '?', f.ta if f else '', n.get('l') if n else None)
        o = self.obl.setdefault(key, [True, f, n, ''])
        if not ok and o[0]: o[0] = False; o[3] = why + ' (called from %s)' % ' < '.join(x[0].q.rsplit('::', 1)[-1] for x in reversed(self.stack[:-1])) if len(self.stack) > 1 else why
    def need(self, kind, st, gs, n, why):
        ok = True
        for g in gs:
            if not self.entails(st, g): ok = False
        self.ob(kind, ok, n, why)
        for g in gs: self.know(st, g)     # reported once, assumed afterwards
        return ok
    def ptrstep(self, st, p, d, z, n):
        """moving a pointer by a number of the input that exceeds the address space wraps, whatever is compared afterwards"""
        if self.taint(d): self.need('range', st, [sub(K(BIG), mul(d, z)), add(mul(d, z), K(BIG))], n, 'the pointer is moved by %s, a number of the input that may exceed the address space' % self.show(d))
    def access(self, st, p, size, n, what='read'):
        if isinstance(p, Ptr):
            s = size if isinstance(size, L) else K(size)
            self.need(what, st, [p.off, sub(sub(p.reg.size, p.off), s)], n, '%s of %s byte(s) at offset %s of %s is not known to lie within its %s bytes' % (what, self.show(s), self.show(p.off), p.reg.name, self.show(p.reg.size)))
    def show(self, v):
        if not isinstance(v, L): return '?'
        return ' + '.join(filter(None, [str(v.c) if v.c or not v.t else ''] + [('%d*' % k if k != 1 else '') + (self.nm[s] or 's%d' % s) for s, k in v.t]))
    # ---------------------------------------------------------------- memory
    def fresh_obj(self): self.no += 1; return ('o', self.no)
    def initial(self, st, key, t, name='', q=''):
        if self.init_field:
            r = self.init_field(self, st, key, t, name, q)
            if r is not None: return r
        b = bare(t)
        if b in INT: return self.typed(b, False, name)
        if is_view(b):
            n = self.sym(0, BIG, True, 'length of ' + (name or 'view')); return View(Region(n, False, True, name or 'view'), ZERO, n)
        if is_str(b):
            n = self.sym(0, BIG, True, 'length of ' + (name or 'string')); return Str(n, Region(n, True, True, name or 'string'))
        if is_bytevec(b):
            n = self.sym(0, BIG, True, 'size of ' + (name or 'vector')); return Str(n, Region(n, False, True, name or 'vector'))
        a = arr_of(b)
        if a: n = K(a[1] * SIZE[a[0]]); return Str(n, Region(n, False, False, name or 'array'))
        return None
    def resolve(self, st, key):
        for _ in range(20):
            if key is None: return None
            v = st.m.get(key)
            if isinstance(v, Ref): key = v.key
            else: return key
        return key
    def rd(self, st, key, t, name='', q=''):
        key = self.resolve(st, key)
        if key is None: return self.typed(t) if bare(t) in INT else self.initial(st, None, t, name, q) if (is_view(t) or is_str(t)) else None
        if key[0] == 'p': return self.load(st, key[1], t)
        if key[0] == 'val': return key[1]
        if key in st.m:
            v = st.m[key]
            if v is None and (bare(t) in INT or is_view(t) or is_str(t)): v = st.m[key] = self.initial(st, key, t, name, q)
            return v
        if key[0] == 'f':
            p = self.resolve(st, key[1]); pv = st.m.get(p)
            if isinstance(pv, Rec):
                if key[2] in pv.f: return pv.f[key[2]]
        if self.lazy is not None: self.lazy.append((key, t, name, q))
        v = self.initial(st, key, t, name, q)
        st.m[key] = v
        return v
    def load(self, st, p, t, n=None):
        b = bare(t)
        if not isinstance(p, Ptr): return self.typed(b) if b in INT else None
        if b in INT:
            k = ('ld', p.reg.id, p.off, b)
            if k not in self.memo: self.memo[k] = self.typed(b, p.reg.taint, '%s[%s]' % (p.reg.name, self.show(p.off)))
            return self.memo[k]
        return None
    def wr(self, st, key, v):
        key = self.resolve(st, key)
        if key is None or key[0] in ('val',): return
        if key[0] == 'p':
            return
        for k in [k for k in st.m if k[0] == 'f' and self.below(k, key)]: del st.m[k]
        st.m[key] = v
    def below(self, k, key):
        while k[0] == 'f':
            k = k[1]
            if k == key: return True
        return False
    def havoc_obj(self, st, key):
        key = self.resolve(st, key)
        if key is None: return
        for k in [k for k in st.m if k == key or (k[0] == 'f' and self.below(k, key))]: del st.m[k]
    # ---------------------------------------------------------------- running
    def this(self): return self.stack[-1][1] if self.stack else ('o', 'this')
    def run(self, fn, this=('o', 'this'), args=None, st=None):
        """all ways the function ends: [(state, 'ret'|'throw', value)]"""
        st = st or S(); self.sinks.append([])
        vals = []
        for i, p in enumerate(fn.ps):
            if args and i < len(args) and args[i] is not None: vals.append(args[i])
            else: vals.append(('init', p))
        r = self.call_fn(fn, this, vals, st)
        thrown = self.sinks.pop()
        return [(s, 'ret', v) for s, v in r] + [(s, 'throw', None) for s in thrown]
    def call_fn(self, fn, this, args, st):
        if len(self.stack) >= self.depth: raise Limit('too deep: ' + fn.q)
        self.visited.add(fn.u); self.stack.append((fn, this))
        try:
            for p, a in zip(fn.ps, args):
                k = ('v', p['d'])
                if isinstance(a, tuple) and a and a[0] == 'init':
                    st.m.pop(k, None); self.rd(st, k, p['t'], p['n'])
                    if arr_of(p['t']) is None and pointee(p['t']) is None and st.m.get(k) is None: st.m[k] = Ref(self.fresh_obj())
                elif isinstance(a, tuple) and a and a[0] == 'lv': st.m[k] = Ref(a[1]) if a[1] != k else st.m.get(k)
                else: st.m[k] = self.coerce(st, a, p['t'])
            for i in fn.inits or []:
                if i.get('e') and i.get('n'):
                    nx = []
                    for s, v in self.ev(i['e'], st): self.wr(s, ('f', this, i['n']), v); nx.append(s)
                    if not nx: return []
                    st = nx[0]
                elif i.get('e'):
                    nx = [s for s, _ in self.ev(i['e'], st)]
                    if not nx: return []
                    st = nx[0]
            if fn.b is None: return [(st, None)]
            out = []; pre = st.fork()
            for s, f in self.ex(fn.b, st): out.append((s, f[1] if isinstance(f, tuple) else None))
            return self.join_returns(out, pre) if len(self.stack) > 1 else out
        finally: self.stack.pop()
    def coerce(self, st, v, t):
        if t is None: return v
        b = bare(t)
        if isinstance(v, L) and b in INT:
            return v
        if is_view(b) and isinstance(v, Str): return View(v.reg, ZERO, v.len)
        if v is None and (b in INT or is_view(b) or is_str(b)): return self.initial(st, None, b)
        return v
    def chars(self, n):
        """a character that is only looked at as another character type"""
        while isinstance(n, dict) and n.get('k') in ('cast', 'icast'):
            if bare(n.get('from') or '') == 'char' or bare(n.get('t') or '') == 'char' and n.get('from') is None: return True
            n = n.get('e')
        return isinstance(n, dict) and bare(n.get('t') or '') == 'char'
    def fit(self, st, v, t, n, implicit=True):
        """integral conversion of v to type t"""
        b = bare(t)
        if not isinstance(v, L): return self.typed(b) if b in INT else v
        if b not in INT: return v
        lo, hi = INT[b]; a, z = self.rng(v)
        if b == 'bool': return v if (a is not None and z is not None and a >= 0 and z <= 1) else self.sym(0, 1, self.taint(v))
        if a is not None and z is not None and a >= lo and z <= hi: return v
        if self.entails(st, sub(v, K(lo))) and self.entails(st, sub(K(hi), v)):
            if n is not None and self.taint(v): self.ob('narrow', True, n)
            return v
        if n is not None and self.taint(v) and b in ('char', 'signed char', 'unsigned char') and lo - 128 <= (a if a is not None else -BIG) and (z if z is not None else BIG) <= 255 and self.chars(n): pass
        elif n is not None and self.taint(v): self.ob('narrow', False, n, 'the value %s read from the input is converted to %s although it is not known to fit' % (self.show(v), b))
        k = ('fit', v, b)
        if k not in self.memo: self.memo[k] = self.sym(lo, hi, self.taint(v), '%s(%s)' % (b, self.show(v)))
        return self.memo[k]
    # ---------------------------------------------------------------- expressions
    def evs(self, ns, st):
        acc = [(st, [])]
        for n in ns: acc = [(s2, vs + [v]) for s, vs in acc for s2, v in self.ev(n, s)]
        return acc
    def tick(self):
        self.steps += 1
        if self.steps > 400000: raise Limit('too many steps')
    def ev(self, n, st):
        if n is None: return [(st, None)]
        self.tick()
        return getattr(self, 'e_' + n['k'], self.e_other)(n, st)
    def e_other(self, n, st):
        acc = [st]
        for c in n.get('ch') or ([n['e']] if isinstance(n.get('e'), dict) else []):
            acc = [s2 for s in acc for s2, _ in self.ev(c, s)]
        return [(s, self.typed(n.get('t'))) for s in acc]
    def e_int(self, n, st): return [(st, K(int(n['v'])))]
    def e_bool(self, n, st): return [(st, K(1 if n['v'] else 0))]
    def e_chr(self, n, st): return [(st, K(int(n['v'])))]
    def e_flt(self, n, st): return [(st, None)]
    def strlit(self, s):
        k = ('str', s)
        if k not in self.memo: self.memo[k] = Region(K(len(s.encode('utf-8', 'replace')) + 1), True, False, 'literal')
        return self.memo[k]
    def e_str(self, n, st): return [(st, Ptr(self.strlit(n['v']), ZERO))]
    def e_null(self, n, st): return [(st, None)]
    def e_this(self, n, st): return [(st, ('objp', self.this()))]
    def e_enum(self, n, st):
        try: return [(st, K(int(n['v'])))]
        except Exception: return [(st, None)]
    def e_fn(self, n, st): return [(st, None)]
    def e_zero(self, n, st): return [(st, ZERO if bare(n['t']) in INT else None)]
    def e_lambda(self, n, st):
        for c in n['caps']:
            if c.get('ic') and c.get('init'):
                for s, v in self.ev(c['init'], st): s.m[('v', c['d'])] = v; st = s; break
        return [(st, Lam(n, self.this(), None))]
    def e_ref(self, n, st):
        if 'cv' in n: return [(st, K(int(n['cv'])))]
        if n.get('dk') == 'glob':
            if 'str' in n: return [(st, View(self.strlit(n['str']), ZERO, K(len(n['str'].encode('utf-8', 'replace')))))]
            if is_view(n.get('t')):
                k = ('glob', n.get('q'))
                if k not in self.memo: z = self.sym(0, BIG, False, n['n']); self.memo[k] = View(Region(z, False, False, n['n']), ZERO, z)
                return [(st, self.memo[k])]
            if 'rows' in n: return [(st, ('rows', n['q']))] if self.rows.setdefault(n['q'], n['rows']) is not None else []
            return [(st, self.typed(n.get('t')))]
        return [(st, self.rd(st, ('v', n['d']), n.get('t'), n['n']))]
    def table(self, n):
        """the constant table an expression denotes (x, x.begin(), std::begin(x))"""
        while isinstance(n, dict):
            if n['k'] == 'ref': return n.get('rows')
            if n['k'] in ('icast', 'cast'): n = n['e']
            elif n['k'] == 'call' and n['q'].rsplit('::', 1)[-1] in ('begin', 'cbegin', 'as_const'): n = n.get('o') or (n['a'][0] if n.get('a') else None)
            else: return None
    def row(self, st, r):
        o = self.fresh_obj()
        for f, t in r.items(): st.m[('f', o, f)] = View(self.strlit(t), ZERO, K(len(t.encode('utf-8', 'replace'))))
        return o
    def apply(self, lam, vals, st, n):
        """a lambda applied to values"""
        b = lam.n
        if b.get('specs'): b = ([x for x in b['specs'] if x.get('b') is not None and len(x.get('ps') or []) == len(vals)] or [{}])[0]
        if b.get('b') is None or len(self.stack) >= self.depth: return [(st, self.sym(0, 1))]
        class F: pass
        f = F(); f.ps = b.get('ps') or []; f.q = self.stack[-1][0].q; f.u = 'lambda%d' % id(b); f.ta = ''; f.inits = []; f.b = b['b']; f.file = self.stack[-1][0].file; f.line = b.get('l'); f.rt = ''
        if any(x[0].u == f.u for x in self.stack): return [(st, self.sym(0, 1))]
        self.stack_ret = getattr(self, 'stack_ret', []); self.stack_ret.append(False)
        try: return [(s, v if isinstance(v, L) else self.sym(0, 1)) for s, v in self.call_fn(f, lam.this, vals, st)]
        finally: self.stack_ret.pop()
    def e_mem(self, n, st): return [(s, self.rd(s, k, n['t'], n['n'], n.get('q', ''))) for s, k in self.lv(n, st)]
    def e_cond(self, n, st):
        out = []
        for s, b in self.cond(n['c'], st): out.extend(self.ev(n['a1'] if b else n['a2'], s))
        return out
    def e_icast(self, n, st): return self.cast(n, st)
    def e_cast(self, n, st):
        if n.get('w') == 'reinterpret' and n.get('ck') == 'LValueBitCast':
            out = []
            for s, k in self.lv(n, st): out.append((s, self.deref_read(s, k, n['t'], n)))
            return out
        return self.cast(n, st)
    def deref_read(self, s, k, t, n):
        if k is not None and k[0] == 'p':
            sz = SIZE.get(bare(t))
            if sz and isinstance(k[1], Ptr): self.access(s, k[1], sz, n)
            return self.load(s, k[1], t)
        if k is not None and k[0] == 'bits':
            v = self.rd(s, k[1], k[2])
            return self.fit(s, v, t, n)
        return self.rd(s, k, t)
    def cast(self, n, st):
        ck = n.get('ck'); out = []
        for s, v in self.ev(n['e'], st):
            if ck == 'IntegralCast' or (ck in ('NoOp', 'LValueToRValue') and isinstance(v, L)): out.append((s, self.fit(s, v, n['t'], n)))
            elif ck == 'IntegralToBoolean':
                if isinstance(v, L):
                    for s2, b in self.test0(s, v): out.append((s2, K(1 if b else 0)))
                else: out.append((s, self.typed('bool')))
            elif ck == 'FloatingToIntegral': out.append((s, self.typed(n['t'])))
            elif ck in ('IntegralToFloating', 'FloatingCast'): out.append((s, None))
            else: out.append((s, v if not (v is None and bare(n.get('t')) in INT) else self.typed(n['t'])))
        return out
    def test0(self, st, v):
        if not isinstance(v, L): return [(st, True), (st.fork(), False)]
        if not v.t: return [(st, v.c != 0)]
        f = st.fork(); out = []
        if self.eq(f, v): out.append((f, False))
        if self.neq(st, v): out.append((st, True))
        return out
    def cond(self, n, st):
        """[(state, bool)]"""
        k = n['k']
        if k == 'bin' and n['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(n['l1'], st):
                if (n['op'] == '&&') != b: out.append((s, b))
                else: out.extend(self.cond(n['r'], s))
            return out
        if k == 'un' and n['op'] == '!': return [(s, not b) for s, b in self.cond(n['e'], st)]
        if k == 'bin' and n['op'] in ('<', '>', '<=', '>=', '==', '!='):
            out = []
            for s, vs in self.evs([n['l1'], n['r']], st): out.extend(self.compare(s, n['op'], vs[0], vs[1], n))
            return out
        if k == 'icast' and n.get('ck') in ('IntegralToBoolean', 'NoOp', 'PointerToBoolean', 'UserDefinedConversion'): 
            if n['ck'] == 'NoOp': return self.cond(n['e'], st)
            return [x for s, v in self.ev(n['e'], st) for x in self.test0(s, v)]
        out = []
        for s, v in self.ev(n, st): out.extend(self.test0(s, v))
        return out
    def num(self, v): return v if isinstance(v, L) else None
    def nullish(self, n):
        for x in (n.get('l1'), n.get('r'), *(n.get('a') or [])):
            while isinstance(x, dict) and x.get('k') in ('icast', 'cast'): x = x['e']
            if isinstance(x, dict) and x.get('k') == 'null': return True
        return False
    def compare(self, st, op, a, b, n):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg: a, b = a.off, b.off
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] == 'element' and not (isinstance(y, tuple) and y and y[0] == 'element') and not self.nullish(n) and op in ('==', '!='):
                # the position in a sequence, compared with its end
                f = st.fork(); z = self.atend; out = []
                if self.know(st, sub(z, ONE)): out.append((st, op == '=='))
                if self.know(f, mul(z, -1)): out.append((f, op != '=='))
                return out
            # iterators of constant tables: found elements differ from the end
            if isinstance(x, tuple) and x and x[0] in ('itr', 'itend') and not isinstance(y, tuple) and op in ('==', '!='): return [(st, (x[0] == 'itend') == (op == '=='))]
        if not (isinstance(a, L) and isinstance(b, L)): return [(st, True), (st.fork(), False)]
        d = sub(a, b)
        g = {'<': (sub(K(-1), d), d), '>': (sub(d, ONE), mul(d, -1)), '<=': (mul(d, -1), sub(d, ONE)), '>=': (d, sub(K(-1), d))}.get(op)
        out = []; f = st.fork()
        if g:
            if self.know(st, g[0]): out.append((st, True))
            if self.know(f, g[1]): out.append((f, False))
        else:
            e = op == '=='
            if self.eq(st, d): out.append((st, e))
            if self.neq(f, d): out.append((f, not e))
        return out
    def e_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||', '<', '>', '<=', '>=', '==', '!='): return [(s, K(1 if b else 0)) for s, b in self.cond(n, st)]
        if op == ',':
            return [x for s, _ in self.ev(n['l1'], st) for x in self.ev(n['r'], s)]
        out = []
        for s, vs in self.evs([n['l1'], n['r']], st): out.extend(self.arith(s, op, vs[0], vs[1], n['t'], n, n['l1'].get('t'), n['r'].get('t')))
        return out
    def clip(self, st, v, t, n):
        """value of an arithmetic operation of type t"""
        r = INT.get(bare(t))
        if r is None: return v
        lo, hi = self.rng(v)
        if lo is not None and hi is not None and lo >= r[0] and hi <= r[1]: return v
        if self.entails(st, sub(v, K(r[0]))) and self.entails(st, sub(K(r[1]), v)): return v
        k = ('clip', v, bare(t))
        if k not in self.memo: self.memo[k] = self.sym(r[0], r[1], self.taint(v), 'wrapped(%s)' % self.show(v))
        return self.memo[k]
    def arith(self, st, op, a, b, t, n, ta=None, tb=None):
        p = pointee(t)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ('+', '-') and isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-' and a.reg is b.reg:
                z = SIZE.get(pointee(ta) or '', 1)
                d = sub(a.off, b.off)
                if z == 1: return [(st, d)]
                return self.arith(st, '/', d, K(z), t, n)
            if isinstance(b, Ptr): a, b = b, a
            if op in ('+', '-') and isinstance(a, Ptr) and isinstance(b, L):
                z = SIZE.get(p or '', None)
                if z is None: return [(st, None)]
                self.ptrstep(st, a, b, z, n)
                off = add(a.off, b, z if op == '+' else -z)
                return [(st, Ptr(a.reg, off))]
            return [(st, self.typed(t))]
        r = INT.get(bare(t))
        if not isinstance(a, L) or not isinstance(b, L): return [(st, self.typed(t) if r else None)]
        ca, cb = self.const(st, a), self.const(st, b)
        if op in ('+', '-'): return [(st, self.clip(st, add(a, b, 1 if op == '+' else -1), t, n))]
        if op == '*':
            if cb is not None: return [(st, self.clip(st, mul(a, cb), t, n))]
            if ca is not None: return [(st, self.clip(st, mul(b, ca), t, n))]
        if op in ('<<', '>>'):
            w = 8 * SIZE.get(bare(t), 8)
            if self.taint(b) or True:
                self.need('shift', st, [b, sub(K(w - 1), b)], n, 'the shift count %s is not known to be less than the %d bits of the shifted value' % (self.show(b), w))
            if cb is None:
                lo, hi = self.bounds(st, b)
                if lo is not None and hi is not None and hi - lo <= 8:
                    out = []
                    for v in range(lo, hi + 1):
                        f = st.fork()
                        if self.eq(f, sub(b, K(v))): out.extend(self.arith(f, op, a, K(v), t, n))
                    return out
            elif op == '<<':
                if cb < 0 or cb >= 128: return [(st, self.typed(t))]
                return [(st, self.clip(st, mul(a, 2 ** cb), t, n))]
            else: return self.arith(st, '/', a, K(2 ** max(0, min(cb, 127))), t, n) if self.entails(st, a) else [(st, self.typed(t))]
        if op == '/' and cb is not None and cb > 0 and self.entails(st, a):
            if ca is not None: return [(st, K(ca // cb))]
            if cb == 1: return [(st, a)]
            k = ('/', a, cb)
            if k not in self.memo: z = self.rng(a)[1]; self.memo[k] = self.sym(0, None if z is None else z // cb, self.taint(a), '%s/%d' % (self.show(a), cb))
            q = self.memo[k]
            self.know(st, sub(a, mul(q, cb))); self.know(st, sub(add(mul(q, cb), K(cb - 1)), a))
            return [(st, q)]
        if op == '%' and cb is not None and cb > 0 and self.entails(st, a):
            if ca is not None: return [(st, K(ca % cb))]
            return [(st, self.sym(0, cb - 1, self.taint(a)))]
        if op == '&':
            if ca is not None and cb is not None: return [(st, K(ca & cb))]
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb is not None and cb >= 0:
                lo, hi = self.rng(a)
                if lo is not None and lo >= 0 and hi is not None and hi <= cb and (cb & (cb + 1)) == 0: return [(st, a)]
                k = ('&', a, cb)
                if k not in self.memo: self.memo[k] = self.sym(0, min(cb, hi) if hi is not None and lo is not None and lo >= 0 else cb, self.taint(a), '(%s & %#x)' % (self.show(a), cb))
                return [(st, self.memo[k])]
            return [(st, self.sym(0 if r and r[0] == 0 else (r or (None, None))[0], (r or (None, None))[1], self.taint(a) or self.taint(b)))]
        if op in ('|', '^'):
            if ca is not None and cb is not None and ca >= 0 and cb >= 0: return [(st, K(ca | cb if op == '|' else ca ^ cb))]
            for x, y in ((a, b), (b, a)):
                lo, hi = self.rng(y)
                if lo is not None and lo >= 0 and hi is not None:
                    m = 1 << hi.bit_length()
                    if x.c % m == 0 and all(v % m == 0 for _, v in x.t) and self.entails(st, x): return [(st, self.clip(st, add(x, y), t, n))]
            hs = [self.rng(x) for x in (a, b)]
            if all(h[0] is not None and h[0] >= 0 and h[1] is not None for h in hs): return [(st, self.sym(0, (1 << max(h[1].bit_length() for h in hs)) - 1, self.taint(a) or self.taint(b)))]
        return [(st, self.sym(r[0], r[1], self.taint(a) or self.taint(b)) if r else None)]
    def e_un(self, n, st):
        op = n['op']
        if op == '!': return [(s, K(0 if b else 1)) for s, b in self.cond(n['e'], st)]
        if op == '&':
            out = []
            for s, k in self.lv(n['e'], st):
                if k is not None and k[0] == 'p': out.append((s, k[1]))
                elif k is not None: out.append((s, ('objp', k)))
                else: out.append((s, None))
            return out
        if op == '*':
            out = []
            for s, k in self.lv(n, st): out.append((s, self.deref_read(s, k, n['t'], n)))
            return out
        if op in ('++', '--', 'p++', 'p--'):
            out = []
            for s, k in self.lv(n['e'], st):
                old = self.rd(s, k, n['t'])
                for s2, nv in self.arith(s, '+' if '+' in op else '-', old, ONE, n['t'], n):
                    self.wr(s2, k, nv); self.moved(s2, k, nv, n)
                    out.append((s2, old if op[0] == 'p' else nv))
            return out
        out = []
        for s, v in self.ev(n['e'], st):
            if op == '+': out.append((s, v))
            elif op == '-' and isinstance(v, L): out.append((s, self.clip(s, mul(v, -1), n['t'], n)))
            elif op == '~' and isinstance(v, L) and not v.t and INT.get(bare(n['t'])): r = INT[bare(n['t'])]; out.append((s, K(~v.c if r[0] < 0 else r[1] - v.c)))
            else: out.append((s, self.typed(n['t'])))
        return out
    def moved(self, st, key, v, n):
        """a cursor that is a member was set: it has to stay within its memory"""
        k = self.resolve(st, key)
        if k is not None and k[0] == 'f' and isinstance(v, Ptr) and v.reg.taint:
            self.need('cursor', st, [v.off, sub(v.reg.size, v.off)], n, 'the cursor is set to offset %s, which is not known to lie within the %s bytes of %s' % (self.show(v.off), self.show(v.reg.size), v.reg.name))
    def e_asg(self, n, st):
        out = []; op = n['op']
        for s, v in self.ev(n['r'], st):
            for s2, k in self.lv(n['l1'], s):
                if op == '=': res = [(s2, v)]
                else:
                    old = self.rd(s2, k, n['t']) if not (k and k[0] == 'p') else self.deref_read(s2, k, n['t'], n)
                    ct = n['t'] if pointee(n['t']) else self.promote(n['t'], n['r'].get('t'))
                    res = [(s3, self.fit(s3, x, n['t'], n) if isinstance(x, L) else x) for s3, x in self.arith(s2, op[:-1], old, v, ct, n, n['t'], n['r'].get('t'))]
                for s3, x in res:
                    if k is not None and k[0] == 'p': self.access(s3, k[1], SIZE.get(bare(n['t']), 1), n, 'write')
                    else: self.wr(s3, k, self.coerce(s3, x, n['t'])); self.moved(s3, k, x, n)
                    out.append((s3, x))
        return out
    def promote(self, a, b):
        x, y = INT.get(bare(a)), INT.get(bare(b))
        if not x or not y: return a
        if x[1] <= 2**31 - 1 and y[1] <= 2**31 - 1: return 'int'
        return max((bare(a), bare(b)), key=lambda z: INT[z][1])
    def e_idx(self, n, st): return [(s, self.deref_read(s, k, n['t'], n)) for s, k in self.lv(n, st)]
    def e_init(self, n, st):
        t = n.get('t'); fn = n.get('fn')
        out = []
        for s, vs in self.evs(n.get('a') or [], st):
            if bare(t) in INT: out.append((s, vs[0] if vs else ZERO)); continue
            if fn is not None: out.append((s, Rec({f: v for f, v in zip(fn, vs)})))
            elif arr_of(t): z = K(arr_of(t)[1] * SIZE[arr_of(t)[0]]); out.append((s, Str(z, Region(z, False, False, 'array'))))
            else: out.append((s, vs[0] if len(vs) == 1 and not fn else None))
        return out
    def e_new(self, n, st):
        out = [st]
        if n.get('n'):
            nx = []
            for s, v in self.ev(n['n'], st): self.alloc(s, v, n, 'new'); nx.append(s)
            out = nx
        if n.get('init'): out = [s2 for s in out for s2, _ in self.ev(n['init'], s)]
        return [(s, None) for s in out]
    def e_delete(self, n, st): return [(s, None) for s, _ in self.ev(n['e'], st)]
    def e_throw(self, n, st):
        ss = [s for s, _ in self.ev(n['e'], st)] if n.get('e') else [st]
        for s in ss[:1] if ss else []: self.sinks[-1].append(s)
        for s in ss[1:]: self.sinks[-1].append(s)
        return []
    def alloc(self, st, v, n, what):
        """memory of a size that depends on the input: must be bounded by the amount of input"""
        if not isinstance(v, L) or not self.taint(v): return
        lim = self.inputs(st)
        if not lim and v.t and all(not self.nm[s].startswith(('length', 'size')) for s, _ in v.t): lim = []
        ok = any(self.entails(st, sub(add(K(4096), mul(z, 8)), v)) for z in lim) or self.entails(st, sub(K(1 << 16), v))
        if not ok:
            tot = K(1 << 16)
            for s, k in v.t:
                if self.nm[s].startswith(('length of', 'size of')) and 0 < k <= 8: tot = add(tot, mul(L(0, ((s, 1),)), k))
            ok = self.entails(st, sub(tot, v))
        self.ob('alloc', ok, n, '%s allocates %s elements, a number the input claims, without a known bound by the size of the input' % (what, self.show(v)))
    def inputs(self, st): return [z for z in getattr(self, 'input_sizes', [])]
    # ---------------------------------------------------------------- locations
    def lv(self, n, st):
        k = n['k'] if n else None
        if k == 'ref':
            if n.get('dk') == 'glob' or 'cv' in n: return [(s, ('val', v)) for s, v in self.e_ref(n, st)]
            return [(st, ('v', n['d']))]
        if k == 'mem':
            out = []
            for s, b in (self.ev(n['b'], st) if n.get('ar') else self.lv(n['b'], st)):
                if n.get('ar'):
                    if isinstance(b, tuple) and b and b[0] in ('objp', 'itr'): out.append((s, ('f', self.resolve(s, b[1]), n['n'])))
                    else: out.append((s, ('f', self.fresh_obj(), n['n'])))
                elif b is None: out.append((s, ('f', self.fresh_obj(), n['n'])))
                elif b[0] == 'val' and isinstance(b[1], Rec): out.append((s, ('val', b[1].f.get(n['n']))))
                elif b[0] in ('val', 'p', 'bits'): out.append((s, ('f', self.fresh_obj(), n['n'])))
                else: out.append((s, ('f', self.resolve(s, b), n['n'])))
            return out
        if k == 'un' and n['op'] == '*':
            out = []
            for s, v in self.ev(n['e'], st):
                if isinstance(v, Ptr): out.append((s, ('p', v)))
                elif isinstance(v, tuple) and v and v[0] in ('objp', 'itr'): out.append((s, v[1]))
                else: out.append((s, ('p', v)))
            return out
        if k == 'un' and n['op'] in ('++', '--'):
            out = []
            for s, v in self.e_un(n, st): out.extend(self.lv(n['e'], s))
            return out
        if k == 'asg': return [x for s, v in self.e_asg(n, st) for x in self.lv(n['l1'], s)]
        if k == 'idx':
            out = []
            for s, vs in self.evs([n['b'], n['i']], st):
                b = vs[0]; z = SIZE.get(bare(n['t']))
                if isinstance(b, Str): b = Ptr(b.reg, ZERO)
                if isinstance(b, Ptr) and isinstance(vs[1], L) and z: out.append((s, ('p', Ptr(b.reg, add(b.off, vs[1], z)))))
                else: out.append((s, ('p', None)))
            return out
        if k in ('cast', 'icast'):
            if n.get('ck') in ('LValueBitCast', 'BitCast') and n.get('w') == 'reinterpret':
                out = []
                for s, l in self.lv(n['e'], st):
                    if l is not None and l[0] in ('v', 'f') and bare(n['t']) in INT: out.append((s, ('bits', l, n.get('from'))))
                    elif l is not None and l[0] == 'p' and arr_of(n['t']):
                        p = l[1]; a = arr_of(n['t']); z = K(a[1] * SIZE[a[0]])
                        out.append((s, ('val', Str(z, p.reg)) if isinstance(p, Ptr) and p.off == ZERO else ('val', None)))
                    else: out.append((s, l))
                return out
            if n.get('ck') in ('NoOp', 'DerivedToBase', 'BaseToDerived', 'UncheckedDerivedToBase', 'LValueBitCast', 'LValueToRValue', 'ConstructorConversion'): return self.lv(n['e'], st)
        if k == 'cond':
            out = []
            for s, b in self.cond(n['c'], st): out.extend(self.lv(n['a1'] if b else n['a2'], s))
            return out
        if k == 'call':
            if n['q'] in ('std::move', 'std::forward', 'std::as_const', 'std::addressof') and n['a']: return self.lv(n['a'][0], st)
            out = []
            for s, v in self.call(n, st, True):
                out.append((s, v[1] if isinstance(v, tuple) and v and v[0] == 'lv' else ('val', v)))
            return out
        return [(s, ('val', v)) for s, v in self.ev(n, st)]
    # ---------------------------------------------------------------- calls
    def e_call(self, n, st):
        out = []
        for s, v in self.call(n, st, False):
            if isinstance(v, tuple) and v and v[0] == 'lv':
                k = self.resolve(s, v[1])
                v = self.deref_read(s, k, n['t'], n) if k is not None and k[0] in ('p', 'bits') else self.rd(s, k, n['t'])
            out.append((s, v))
        return out
    def e_icall(self, n, st):
        acc = [s for s, _ in self.ev(n.get('c'), st)] if isinstance(n.get('c'), dict) else [st]
        out = []
        for s in acc:
            for s2, vs in self.evs(n['a'], s): out.append((s2, self.typed(n.get('t'))))
        return out
    def e_ctor(self, n, st):
        q = n.get('q', ''); t = n.get('t'); a = n.get('a') or []
        if is_view(t) or is_str(t) or is_bytevec(t):
            out = []
            for s, vs in self.evs(a, st): out.append((s, self.make_text(s, t, vs, n)))
            return out
        if n.get('cp') and len(a) == 1: return self.ev(a[0], st)
        if q == 'std::pair' and len(a) == 2: return [(s, Rec({'first': vs[0], 'second': vs[1]})) for s, vs in self.evs(a, st)]
        f = self.P.fns.get(n.get('f'))
        if f is not None and f.b is not None and q.startswith('dots::') and len(self.stack) < self.depth and not any(x[0].u == f.u for x in self.stack) and self.inline(f):
            out = []; o = self.fresh_obj()
            for s, vs in self.evargs(f, a, st):
                for s2, _ in self.call_fn(f, o, vs, s): out.append((s2, ('objv', o)))
            return out
        out = []
        for s, vs in self.evs(a, st):
            self.external(s, n, vs, a)
            out.append((s, None))
        return out
    def make_text(self, s, t, vs, n):
        vs = [v for v in vs]
        own = not is_view(t)
        def owned(l):
            # the contents of a copy are of the same origin
            return Str(l, Region(l, is_str(t), True, 'copy'))
        if not vs: return View(self.strlit(''), ZERO, ZERO) if not own else owned(ZERO)
        v = vs[0]
        more = len(vs) > 1 and isinstance(vs[1], (L, Ptr))
        if isinstance(v, View) and not more: return v if not own else owned(v.len)
        if isinstance(v, Str) and not more: return View(v.reg, ZERO, v.len) if not own else owned(v.len)
        if isinstance(v, Ptr):
            if len(vs) >= 2 and isinstance(vs[1], L):
                self.access(s, v, vs[1], n, 'range')
                if own: self.alloc(s, vs[1], n, 'std::string')
                return View(v.reg, v.off, vs[1]) if not own else owned(vs[1])
            if len(vs) >= 2 and isinstance(vs[1], Ptr):
                if vs[1].reg is v.reg:
                    l = sub(vs[1].off, v.off); self.need('range', s, [l, v.off, sub(v.reg.size, vs[1].off)], n, 'the range is not known to lie within %s' % v.reg.name)
                    return View(v.reg, v.off, l) if not own else owned(l)
            if not more:
                self.terminated(s, v, n)
                l = sub(sub(v.reg.size, ONE), v.off) if v.reg.name == 'literal' else self.sym(0, BIG, v.reg.taint, 'length of text')
                return View(v.reg, v.off, l) if not own else owned(l)
        if own and isinstance(v, L) and len(vs) in (1, 2, 3) and not isinstance(vs[1] if len(vs) > 1 else None, Ptr): self.alloc(s, v, n, 'std::string'); return owned(v)
        if isinstance(v, View) and len(vs) >= 2 and isinstance(vs[1], L) and own: return owned(self.sym(0, BIG, True, 'length of text'))
        l = self.sym(0, BIG, False, 'length of text')
        return View(Region(l, False, False, 'text'), ZERO, l) if not own else owned(l)
    def terminated(self, s, p, n):
        """a pointer without a length is given to something that expects a terminated string"""
        if not isinstance(p, Ptr): return
        ok = p.reg.nul
        self.ob('terminated', ok, n, 'a pointer into %s is used as a null-terminated string, although nothing terminates it' % p.reg.name)
    def evargs(self, f, a, st):
        """arguments of an inlined function: references stay references"""
        acc = [(st, [])]
        for i, x in enumerate(a):
            p = f.ps[i]['t'] if i < len(f.ps) else ''
            nx = []
            for s, vs in acc:
                if p.endswith('&') and not (x['k'] in ('int', 'bool', 'str', 'lambda')):
                    for s2, k in self.lv(x, s):
                        if k is None: nx.append((s2, vs + [None]))
                        elif k[0] == 'val': nx.append((s2, vs + [k[1]]))
                        elif k[0] == 'bits': nx.append((s2, vs + [self.deref_read(s2, k, p, x)]))
                        else: nx.append((s2, vs + [('lv', self.resolve(s2, k))]))
                else:
                    for s2, v in self.ev(x, s): nx.append((s2, vs + [v]))
            acc = nx
        return acc
    def call(self, n, st, want_lv):
        q = n['q']; name = q.rsplit('::', 1)[-1]; a = n.get('a') or []
        if q in ('std::move', 'std::forward', 'std::as_const') and a: return self.ev(a[0], st)
        f = self.P.fns.get(n.get('f'))
        o = n.get('o')
        # lambdas
        if n.get('op') == '()' and o is not None:
            out = []
            for s, v in self.ev(o, st):
                if isinstance(v, Lam): out.extend(self.call_lam(v, a, s, n))
                else: out.extend((s2, self.typed(n.get('t'))) for s2, _ in self.evs(a, s))
            return out
        if n.get('op') in ('*', '->') and o is not None and not a:
            rs = self.ev(o, st.fork())
            if rs and all(isinstance(v, tuple) and v and v[0] == 'itr' for _, v in rs): return [(s, ('lv', v[1]) if n['op'] == '*' else ('objp', v[1])) for s, v in rs]
        r = self.on_call(self, n, st) if self.on_call else None
        if r is not None: return r
        if f is not None and f.b is not None and len(self.stack) < self.depth and not f.virt and not any(x[0].u == f.u for x in self.stack) and self.inline(f) and (f.file.startswith('/') and not q.startswith(('std::', 'boost::', 'fmt::'))):
            out = []
            acc = []
            if o is not None:
                for s, b in (self.ev(o, st) if n.get('ar') else self.lv(o, st)):
                    if n.get('ar'): b = b[1] if isinstance(b, tuple) and b and b[0] == 'objp' else self.fresh_obj()
                    else:
                        b = self.resolve(s, b) if b is not None and b[0] in ('v', 'f', 'o') else (b[1][1] if b is not None and b[0] == 'val' and isinstance(b[1], tuple) and b[1] and b[1][0] in ('objv', 'objp') else self.fresh_obj())
                    acc.append((s, b))
            else: acc = [(st, ('o', 'static'))]
            isref = f.rt.endswith('&')
            for s, b in acc:
                for s2, vs in self.evargs(f, a, s):
                    for s3, v in self.call_fn_ref(f, b, vs, s2) if isref else self.call_fn(f, b, vs, s2): out.append((s3, v))
            return out
        # text
        if o is not None:
            ot = self.obj_type(n)
            if is_view(ot) or is_str(ot) or is_bytevec(ot) or arr_of(ot): return self.text_call(n, st, name, ot)
        return self.free_call(n, st, q, name)
    def obj_type(self, n):
        o = n['o']; t = o.get('t')
        if n.get('ar'): t = pointee(t)
        if t is None and o.get('k') == 'call': t = o.get('t')
        if t is None: t = {'std::basic_string_view': 'std::basic_string_view<char>', 'std::basic_string': 'std::basic_string<char>', 'std::__cxx11::basic_string': 'std::basic_string<char>'}.get(n['q'].rsplit('::', 1)[0], '')
        return t
    def call_fn_ref(self, f, b, vs, s):
        """function returning a reference: the value is the location"""
        self.stack_ret = getattr(self, 'stack_ret', [])
        self.stack_ret.append(True)
        try: return self.call_fn(f, b, vs, s)
        finally: self.stack_ret.pop()
    def call_lam(self, lam, a, st, n):
        b = lam.n
        if b.get('specs'):
            c = [x for x in b['specs'] if x['f'] == n.get('f')] or b['specs'][:1]
            if not c: return [(s, self.typed(n.get('t'))) for s, _ in self.evs(a, st)]
            b = c[0]
        if b.get('b') is None: return [(s, self.typed(n.get('t'))) for s, _ in self.evs(a, st)]
        if len(self.stack) >= self.depth: raise Limit('too deep')
        class F: pass
        f = F(); f.ps = b.get('ps') or []; f.q = (self.stack[-1][0].q if self.stack else '') ; f.u = 'lambda%d' % id(b); f.ta = ''; f.inits = []; f.b = b['b']; f.file = self.stack[-1][0].file if self.stack else ''; f.line = lam.n.get('l'); f.rt = n.get('t') or ''
        if any(x[0].u == f.u for x in self.stack): return [(s, self.typed(n.get('t'))) for s, _ in self.evs(a, st)]
        out = []
        for s, vs in self.evargs(f, a, st):
            self.stack_ret = getattr(self, 'stack_ret', []); self.stack_ret.append(False)
            try: out.extend((s2, v if v is not None else self.typed(n.get('t'))) for s2, v in self.call_fn(f, lam.this, vs, s))
            finally: self.stack_ret.pop()
        return out
    def textval(self, st, n):
        o = n['o']
        return [(s, v) for s, v in (self.ev(o, st))]
    def nonempty(self, st, ln, n, what):
        self.need('empty', st, [sub(ln, ONE)], n, '%s of text that is not known to be non-empty' % what)
    def text_call(self, n, st, name, ot):
        """operations of std::string_view, std::string, byte vectors and arrays"""
        a = n.get('a') or []; out = []
        for s, k in self.lv(n['o'], st) if not n.get('ar') else [(s, ('val', None)) for s, _ in self.ev(n['o'], st)]:
            v = self.rd(s, k, ot) if k is not None and k[0] != 'p' else self.initial(s, None, ot)
            if isinstance(v, Ptr): v = None
            if v is None or not isinstance(v, (View, Str)):
                v = self.initial(s, None, ot)
                if k is not None and k[0] in ('v', 'f', 'o') and arr_of(ot): s.m[self.resolve(s, k)] = v
            for s2, vs in self.evs(a, s):
                reg, off, ln = (v.reg, v.off, v.len) if isinstance(v, View) else (v.reg, ZERO, v.len)
                op = n.get('op')
                if name in ('size', 'length'): out.append((s2, ln)); continue
                if name == 'empty':
                    f = s2.fork()
                    if self.eq(f, ln): out.append((f, ONE))
                    if self.know(s2, sub(ln, ONE)): out.append((s2, ZERO))
                    continue
                if name == 'operator()cv' and is_view(bare(n.get('t') or '')): out.append((s2, View(reg, off, ln))); continue
                if name in ('data', 'c_str', 'begin', 'cbegin'): out.append((s2, Ptr(reg, off))); continue
                if name in ('end', 'cend'): out.append((s2, Ptr(reg, add(off, ln)))); continue
                if name == 'front': self.nonempty(s2, ln, n, 'first character'); out.append((s2, self.load(s2, Ptr(reg, off), n['t']))); continue
                if name == 'back': self.nonempty(s2, ln, n, 'last character'); out.append((s2, self.load(s2, Ptr(reg, sub(add(off, ln), ONE)), n['t']))); continue
                if op == '[]' and vs and isinstance(vs[0], L):
                    if arr_of(ot) and SIZE.get(arr_of(ot)[0], 1) != 1: out.append((s2, self.typed(n['t']))); continue
                    extra = ONE if is_str(ot) else ZERO
                    self.need('index', s2, [vs[0], sub(add(sub(ln, vs[0]), extra), ONE)], n, 'index %s is not known to lie within the %s characters' % (self.show(vs[0]), self.show(ln)))
                    out.append((s2, ('lv', ('p', Ptr(reg, add(off, vs[0])))) if False else self.load(s2, Ptr(reg, add(off, vs[0])), n['t']))); continue
                if name == 'at' and vs and isinstance(vs[0], L):
                    if self.know(s2, vs[0]) and self.know(s2, sub(sub(ln, vs[0]), ONE)): out.append((s2, self.load(s2, Ptr(reg, add(off, vs[0])), n['t'])))
                    continue
                if name in ('remove_prefix', 'remove_suffix') and vs and isinstance(vs[0], L):
                    self.need('view', s2, [sub(ln, vs[0])], n, '%s of %s characters from a view of %s' % (name, self.show(vs[0]), self.show(ln)))
                    nv = View(reg, add(off, vs[0]) if name == 'remove_prefix' else off, sub(ln, vs[0]))
                    self.wr(s2, k, nv); out.append((s2, None)); continue
                if name == 'substr':
                    p = vs[0] if vs and isinstance(vs[0], L) else ZERO
                    c = vs[1] if len(vs) > 1 and isinstance(vs[1], L) else None
                    f = s2.fork()
                    if self.know(f, sub(sub(p, ln), ONE)): self.sinks[-1].append(f)
                    if not self.know(s2, sub(ln, p)): continue
                    rest = sub(ln, p); nw = []
                    if c is None or self.entails(s2, sub(c, rest)): nw = [(s2, rest)]
                    elif self.entails(s2, sub(rest, c)): nw = [(s2, c)]
                    else:
                        g = s2.fork()
                        if self.know(g, sub(sub(c, rest), ONE)): nw.append((g, rest))
                        if self.know(s2, sub(rest, c)): nw.append((s2, c))
                    for s3, l in nw: out.append((s3, View(reg, add(off, p), l) if isinstance(v, View) else Str(l, Region(l, True, reg.taint, 'substring'))))
                    continue
                if name.startswith(('find', 'rfind')) :
                    if vs and isinstance(vs[0], Ptr):
                        if len(vs) == 3 and isinstance(vs[2], L): self.access(s2, vs[0], vs[2], n, 'range')
                        else: self.terminated(s2, vs[0], n)
                    g = s2.fork(); r = self.sym(0, BIG, reg.taint, 'position')
                    if self.know(s2, sub(sub(ln, r), ONE if not (vs and isinstance(vs[0], View)) else ZERO)): out.append((s2, r))
                    out.append((g, K(2**64 - 1))); continue
                if name in ('resize', 'reserve', 'assign', 'append', 'push_back', 'operator+=', 'insert', 'erase', 'clear', 'pop_back', 'replace', 'swap', 'emplace_back', 'operator=') or op in ('=', '+='):
                    self.textarg(s2, n, vs, a)
                    nl = None
                    if name in ('resize', 'reserve') and vs and isinstance(vs[0], L): self.alloc(s2, vs[0], n, name); nl = vs[0] if name == 'resize' else ln
                    elif name == 'append' and len(vs) == 2 and isinstance(vs[0], L): self.alloc(s2, vs[0], n, name); nl = add(ln, vs[0])
                    elif name == 'assign' and len(vs) == 2 and isinstance(vs[0], L): self.alloc(s2, vs[0], n, name); nl = vs[0]
                    elif name == 'clear': nl = ZERO
                    elif name == 'push_back': nl = add(ln, ONE)
                    elif name == 'pop_back': self.nonempty(s2, ln, n, 'pop_back'); nl = sub(ln, ONE)
                    elif name == 'reserve': nl = ln
                    if is_view(ot):
                        nv = vs[0] if vs and isinstance(vs[0], View) else self.make_text(s2, ot, vs, n) if vs else v
                        self.wr(s2, k, nv); out.append((s2, ('lv', k) if k is not None and k[0] in ('v', 'f') else nv)); continue
                    if arr_of(ot): out.append((s2, None)); continue
                    if (op == '=' or name == 'operator=') and vs:
                        x = vs[0]
                        nl = x.len if isinstance(x, (View, Str)) else None
                    if (op == '+=' or name == 'operator+=') and vs:
                        x = vs[0]
                        nl = add(ln, x.len) if isinstance(x, (View, Str)) else add(ln, ONE) if isinstance(x, L) else add(ln, sub(x.reg.size, ONE)) if isinstance(x, Ptr) and x.reg.name == 'literal' else add(ln, self.sym(0, BIG, True, 'length of appended text'))
                    if nl is None: nl = self.sym(0, BIG, False, 'length of text')
                    if k is not None and k[0] in ('v', 'f'): self.wr(s2, k, Str(nl, Region(nl, is_str(ot), True, reg.name)))
                    out.append((s2, ('lv', k) if k is not None and k[0] in ('v', 'f') and bare(n['t']) != 'void' else None)); continue
                self.textarg(s2, n, vs, a)
                if op in ('==', '!=') or name in ('compare', 'starts_with', 'ends_with', 'contains'):
                    x = vs[0] if vs else None
                    if name == 'starts_with' and isinstance(x, (View,)):
                        g = s2.fork(); out.append((g, ZERO))
                        if self.know(s2, sub(ln, x.len)): out.append((s2, ONE))
                        continue
                out.append((s2, self.typed(n.get('t'))))
        return out
    def text_pos(self, s, vs): return [(s, None)]
    def textarg(self, s, n, vs, nodes):
        """arguments given to a library function: pointers need a length or an end"""
        ps = [(i, v) for i, v in enumerate(vs) if isinstance(v, Ptr)]
        for j, (i, v) in enumerate(ps):
            nxt = vs[i + 1] if i + 1 < len(vs) else None
            if isinstance(nxt, Ptr) and nxt.reg is v.reg:
                self.need('range', s, [v.off, sub(nxt.off, v.off), sub(v.reg.size, nxt.off)], n, 'the range from offset %s to %s is not known to lie within the %s bytes of %s' % (self.show(v.off), self.show(nxt.off), self.show(v.reg.size), v.reg.name))
            elif any(isinstance(x, Ptr) and x.reg is v.reg and x is not v for x in vs): pass
            elif isinstance(nxt, L): self.access(s, v, nxt, n, 'range')
            elif any(isinstance(x, L) for x in vs): pass
            else: self.terminated(s, v, n)
    def external(self, s, n, vs, nodes):
        """something outside the analysed program gets the values"""
        self.textarg(s, n, vs, nodes)
        for v, x in zip(vs, nodes):
            if isinstance(v, tuple) and v and v[0] == 'objp' and x.get('k') == 'un' and x['op'] == '&': self.havoc_obj(s, v[1])
    def out_ptr(self, st, v, size, n, what='write'):
        if isinstance(v, Ptr): self.access(st, v, size, n, what)
        elif isinstance(v, tuple) and v and v[0] == 'objp': pass
    def free_call(self, n, st, q, name):
        a = n.get('a') or []; out = []; o = n.get('o'); t = n.get('t')
        pre = [(st, None)]
        if o is not None: pre = [(s, k) for s, k in self.lv(o, st)] if not n.get('ar') else [(s, None) for s, _ in self.ev(o, st)]
        for s0, ok in pre:
            if name == 'get' and q == 'std::get' and n.get('ta') and a:
                for s, v in self.ev(a[0], s0):
                    i = n['ta'][0].rstrip('UL')
                    out.append((s, v.f.get({'0': 'first', '1': 'second'}.get(i)) if isinstance(v, Rec) else self.typed(t)))
                continue
            if o is None and n.get('op') in ('<', '>', '<=', '>=', '==', '!=') and len(a) == 2:
                for s, vs in self.evs(a, s0):
                    # a C string may be compared, it is terminated or not
                    for v, w in ((vs[0], vs[1]), (vs[1], vs[0])):
                        if isinstance(v, Ptr) and isinstance(w, (View, Str)): self.terminated(s, v, n)
                    if any(isinstance(v, tuple) and v and v[0] in ('itr', 'itend') for v in vs): out.extend((x, K(1 if b else 0)) for x, b in self.compare(s, n['op'], vs[0], vs[1], n))
                    elif isinstance(vs[0], (Ptr, L)) and isinstance(vs[1], (Ptr, L)): out.extend((x, K(1 if b else 0)) for x, b in self.compare(s, n['op'], vs[0], vs[1], n))
                    else: out.extend([(s.fork(), ONE), (s, ZERO)])
                continue
            if name in ('find_if', 'any_of', 'none_of', 'all_of') and a and self.table(a[0]):
                for s, vs in self.evs(a[-1:], s0):
                    if not isinstance(vs[0], Lam): out.append((s, self.typed(t))); continue
                    cur = [s]
                    for r in self.table(a[0]):
                        nx = []
                        for c in cur:
                            ob = self.row(c, r)
                            for c2, v in self.apply(vs[0], [('lv', ob)], c, n):
                                for c3, b in self.test0(c2, v):
                                    hit = b if name != 'all_of' else not b
                                    if hit: out.append((c3, ('itr', ob) if name == 'find_if' else K(1 if name == 'any_of' else 0)))
                                    else: nx.append(c3)
                        cur = nx
                    out.extend((c, ('itend',) if name == 'find_if' else K(0 if name == 'any_of' else 1)) for c in cur)
                continue
            if n.get('op') == '[]' and o is not None and len(a) == 1:
                x = a[0]; sg = False
                while x['k'] in ('icast', 'cast') and (x.get('ck') in ('NoOp', 'LValueToRValue') or x.get('ck') == 'IntegralCast' and SIZE.get(bare(x['t']), 0) > SIZE.get(bare(x['e'].get('t') or ''), 99)): x = x['e']; sg = True
                if sg and bare(x.get('t') or '') in INT:
                    for s, v in self.ev(x, s0.fork()):
                        if isinstance(v, L) and self.taint(v): self.need('index', s, [v], n, 'the index %s, a character or number of the input, may be negative' % self.show(v))
            for s, vs in self.evs(a, s0):
                if n.get('op') == '+' and o is None and len(vs) == 2 and is_str(t or ''):
                    tot = ZERO
                    for v in vs:
                        if isinstance(v, (View, Str)): x = v.len
                        elif isinstance(v, L): x = ONE
                        elif isinstance(v, Ptr) and v.reg.name == 'literal': x = sub(sub(v.reg.size, ONE), v.off)
                        else:
                            self.terminated(s, v, n); x = self.sym(0, BIG, True, 'length of text')
                        tot = add(tot, x)
                    out.append((s, Str(tot, Region(tot, True, True, 'text')))); continue
                if q in ('std::min', 'std::max') and len(vs) == 2 and all(isinstance(v, L) for v in vs):
                    x, y = vs
                    g = s.fork()
                    if self.know(s, sub(y, x)): out.append((s, x if name == 'min' else y))
                    if self.know(g, sub(sub(x, y), ONE)): out.append((g, y if name == 'min' else x))
                    continue
                if q.startswith('std::numeric_limits') and name in ('max', 'min', 'lowest') and bare(t) in INT and not vs: out.append((s, K(INT[bare(t)][1 if name == 'max' else 0]))); continue
                if q in ('std::distance',) and len(vs) == 2 and all(isinstance(v, Ptr) for v in vs) and vs[0].reg is vs[1].reg: out.append((s, sub(vs[1].off, vs[0].off))); continue
                if q in ('std::next', 'std::prev') and vs and isinstance(vs[0], Ptr):
                    d = vs[1] if len(vs) > 1 else ONE
                    if isinstance(d, L): self.ptrstep(s, vs[0], d, 1, n)
                    out.append((s, Ptr(vs[0].reg, add(vs[0].off, d, 1 if name == 'next' else -1)) if isinstance(d, L) else None)); continue
                if q in ('std::begin', 'std::cbegin', 'std::data') and vs and isinstance(vs[0], (View, Str)): out.append((s, Ptr(vs[0].reg, vs[0].off if isinstance(vs[0], View) else ZERO))); continue
                if q in ('std::end', 'std::cend') and vs and isinstance(vs[0], (View, Str)): out.append((s, Ptr(vs[0].reg, add(vs[0].off if isinstance(vs[0], View) else ZERO, vs[0].len)))); continue
                if q in ('std::size',) and vs and isinstance(vs[0], (View, Str)): out.append((s, vs[0].len)); continue
                if name in ('memcpy', 'memmove', '__builtin_memcpy') and len(vs) == 3:
                    sz = vs[2] if isinstance(vs[2], L) else None
                    if sz is None:
                        for v in vs[:2]:
                            if isinstance(v, Ptr): self.ob('range', False, n, 'memory of unknown size is copied')
                    else:
                        self.out_ptr(s, vs[0], sz, n, 'write'); self.out_ptr(s, vs[1], sz, n, 'read')
                        for v, x in ((vs[0], a[0]), (vs[1], a[1])):
                            if isinstance(v, tuple) and v and v[0] == 'objp':
                                z = self.sizeof(x)
                                if z is not None: self.need('write' if v is vs[0] else 'read', s, [sub(K(z), sz)], n, '%s bytes are copied, but the object has %d' % (self.show(sz), z))
                    if isinstance(vs[0], tuple) and vs[0] and vs[0][0] == 'objp': self.havoc_obj(s, vs[0][1])
                    out.append((s, None)); continue
                if name in ('find_if', 'find_if_not', 'find', 'find_first_of', 'search', 'adjacent_find', 'lower_bound', 'remove', 'remove_if', 'partition') and len(vs) >= 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].reg is vs[1].reg:
                    self.textarg(s, n, vs[:2], a)
                    r = self.sym(0, BIG, vs[0].reg.taint, 'position'); self.know(s, sub(r, vs[0].off)); self.know(s, sub(vs[1].off, r))
                    g = s.fork()
                    for v in vs[2:]:
                        if isinstance(v, Lam): self.try_lam(v, g, vs[0].reg, r, n)
                    out.append((s, Ptr(vs[0].reg, r))); continue
                if name in ('from_chars',) and len(vs) >= 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].reg is vs[1].reg:
                    self.textarg(s, n, vs[:2], a)
                    r = self.sym(0, BIG, True, 'end of number'); self.know(s, sub(r, vs[0].off)); self.know(s, sub(vs[1].off, r))
                    for s2, k in self.lv(a[2], s.fork()):
                        self.havoc_obj(s, k); b = bare(a[2].get('t') or '')
                        if b in INT and b != 'bool': self.wr(s, k, self.sym(INT[b][0], INT[b][1], vs[0].reg.taint, 'number'))
                    out.append((s, Rec({'ptr': Ptr(vs[0].reg, r), 'ec': None}))); continue
                if name in ('strtof', 'strtod', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'strtold') and vs:
                    self.terminated(s, vs[0], n)
                    if isinstance(vs[0], Ptr) and len(vs) > 1 and isinstance(vs[1], tuple) and vs[1] and vs[1][0] == 'objp':
                        r = self.sym(0, BIG, True, 'end of number'); self.know(s, sub(r, vs[0].off)); self.know(s, sub(vs[0].reg.size, r))
                        self.wr(s, vs[1][1], Ptr(vs[0].reg, r))
                    b = bare(t)
                    out.append((s, self.sym(INT[b][0], INT[b][1], vs[0].reg.taint, 'number') if isinstance(vs[0], Ptr) and b in INT else self.typed(t))); continue
                if name in ('copy', 'copy_n', 'copy_backward', 'unhex', 'hex', 'hex_lower') : 
                    self.copy_call(s, n, name, vs, a); out.append((s, None)); continue
                if name == 'mismatch' and len(vs) in (3, 4) and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and isinstance(vs[2], Ptr):
                    ln = sub(vs[1].off, vs[0].off)
                    if len(vs) == 3 or isinstance(vs[3], Lam): self.access(s, vs[2], ln, n, 'range')
                    r = self.sym(0, BIG); self.know(s, r); self.know(s, sub(ln, r))
                    out.append((s, Rec({'first': Ptr(vs[0].reg, add(vs[0].off, r)), 'second': Ptr(vs[2].reg, add(vs[2].off, r))}))); continue
                if name in ('equal', 'starts_with') and len(vs) >= 3 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and isinstance(vs[2], Ptr) and (len(vs) < 4 or not isinstance(vs[3], Ptr)):
                    self.access(s, vs[2], sub(vs[1].off, vs[0].off), n, 'range'); out.append((s, self.typed(t))); continue
                if name == 'swap' and len(a) == 2 and o is None:
                    ks = [self.lv(x, s)[0][1] for x in a]
                    for k in ks: self.havoc_obj(s, k)
                    out.append((s, None)); continue
                if name == 'exchange' and len(a) == 2 and q == 'std::exchange':
                    k = self.lv(a[0], s)[0][1]; old = self.rd(s, k, t); self.wr(s, k, vs[1]); out.append((s, old)); continue
                if o is not None and q.startswith('dots::'):
                    self.textarg_dots(s, n, vs)
                    if name in ('fill', 'resize'): [self.alloc(s, v, n, name) for v in vs if isinstance(v, L)]
                    self.havoc_obj(s, ok if ok is not None and ok[0] in ('v', 'f', 'o') else None)
                elif q.startswith('dots::'):
                    if name in ('fill', 'resize'): [self.alloc(s, v, n, name) for v in vs if isinstance(v, L)]
                else:
                    self.external(s, n, vs, a)
                    if name in ('resize', 'reserve', 'assign') and vs and isinstance(vs[0], L): self.alloc(s, vs[0], n, name)
                    if o is not None and ok is not None and ok[0] in ('v', 'f'):
                        r = self.abstract_size(s, n, name, ok, t)
                        if r is not None: out.extend(r); continue
                out.append((s, self.result(s, t)))
        return out
    def textarg_dots(self, s, n, vs): pass
    def try_lam(self, v, s, reg, r, n):
        """the predicate of an algorithm, applied to an element of the range"""
        b = v.n
        if b.get('specs') or not b.get('ps') or b.get('b') is None: return
        class F: pass
        f = F(); f.ps = b['ps']; f.q = self.stack[-1][0].q; f.u = 'lambda%d' % id(b); f.ta = ''; f.inits = []; f.b = b['b']; f.file = self.stack[-1][0].file; f.line = b.get('l'); f.rt = ''
        if any(x[0].u == f.u for x in self.stack): return
        el = self.typed(b['ps'][0]['t'], reg.taint) if bare(b['ps'][0]['t']) in INT else ('init', b['ps'][0])
        self.sinks.append([])
        try: self.call_fn(f, v.this, [el] + [('init', p) for p in b['ps'][1:]], s)
        finally: self.sinks.pop()
    def abstract_size(self, s, n, name, ok, t):
        """size of other containers: the same as long as nothing changes them"""
        k = ('f', self.resolve(s, ok), '#size')
        if name in ('size', 'length', 'empty', 'count') and not n.get('a'):
            if not isinstance(s.m.get(k), L): s.m[k] = self.sym(0, BIG, False, 'size')
            z = s.m[k]
            if name == 'empty':
                r = []; f = s.fork()
                if self.eq(f, z): r.append((f, ONE))
                if self.know(s, sub(z, ONE)): r.append((s, ZERO))
                return r
            return [(s, z)]
        if name in ('push', 'emplace', 'push_back', 'emplace_back', 'push_front'):
            if isinstance(s.m.get(k), L): s.m[k] = add(s.m[k], ONE)
            return [(s, self.result(s, t))]
        if name in ('pop', 'pop_back', 'pop_front'):
            z = s.m.get(k)
            if isinstance(z, L):
                s.m[k] = sub(z, ONE)
            return [(s, None)]
        if name in ('top', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'data', 'find', 'at', 'count', 'capacity', 'contains') or n.get('op') == '[]': return [(s, self.result(s, t))]
        s.m.pop(k, None)
        return [(s, self.result(s, t))]
    def result(self, s, t):
        b = bare(t or '')
        if b in INT: return self.typed(b)
        if is_view(b) or is_str(b): return self.initial(s, None, b, 'text')
        return None
    def sizeof(self, x):
        while x and x.get('k') in ('cast', 'icast'): x = x['e']
        if x and x.get('k') == 'un' and x['op'] == '&':
            t = x['e'].get('t'); return SIZE.get(bare(t or ''))
        return None
    def copy_call(self, s, n, name, vs, a):
        if name == 'copy_n' and len(vs) == 3 and isinstance(vs[1], L):
            self.out_ptr(s, vs[0], vs[1], n, 'read'); self.out_ptr(s, vs[2], vs[1], n, 'write'); return
        if name == 'copy' and len(vs) == 3 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].reg is vs[1].reg:
            ln = sub(vs[1].off, vs[0].off)
            self.need('range', s, [vs[0].off, ln, sub(vs[1].reg.size, vs[1].off)], n, 'the copied range is not known to lie within %s' % vs[0].reg.name)
            self.out_ptr(s, vs[2], ln, n, 'write'); return
        if name == 'unhex':
            src = vs[0] if vs else None; dst = vs[-1]
            ln = src.len if isinstance(src, (View, Str)) else sub(vs[1].off, src.off) if isinstance(src, Ptr) and len(vs) == 3 and isinstance(vs[1], Ptr) else None
            if isinstance(src, Ptr) and len(vs) == 2: self.terminated(s, src, n)
            if isinstance(dst, Ptr):
                if ln is None: self.ob('write', False, n, 'text of unknown length is decoded into %s' % dst.reg.name)
                else: self.need('write', s, [dst.off, sub(mul(sub(dst.reg.size, dst.off), 2), ln)], n, 'hexadecimal text of %s characters is decoded into %s, which has %s bytes' % (self.show(ln), dst.reg.name, self.show(dst.reg.size)))
            return
        self.textarg(s, n, vs, a)
    # ---------------------------------------------------------------- statements: [(state, None|'brk'|'cont'|('ret', value))]
    def ex(self, n, st):
        if n is None: return [(st, None)]
        self.tick()
        k = n['k']; h = getattr(self, 's_' + k, None)
        if h: return h(n, st)
        return [(s, None) for s, _ in self.ev(n, st)]
    def s_blk(self, n, st):
        acc = [(st, None)]; st0 = st.fork()
        for c in n['s']:
            nx = []
            for s, f in acc:
                if f is not None: nx.append((s, f))
                else: nx.extend(self.ex(c, s))
            acc = self.merge(nx)
            if sum(1 for _, f in acc if f is None) > 40:
                live = [s for s, f in acc if f is None]
                acc = [(s, f) for s, f in acc if f is not None] + [(self.join(live, st0, False), None)]
            if len(acc) > self.max_states: raise Limit('too many states')
        return acc
    RET = ('#ret',)
    def join(self, ss, pre, drop_locals):
        """one state that covers all the given ones"""
        if len(ss) == 1: return ss[0]
        out = S(); out.loop = ss[0].loop
        fs = set(ss[0].facts); ns = set(ss[0].ne)
        for s in ss[1:]: fs &= set(s.facts); ns &= set(s.ne)
        out.facts = tuple(f for f in ss[0].facts if f in fs); out.ne = tuple(f for f in ss[0].ne if f in ns)
        keys = set(ss[0].m)
        for s in ss[1:]: keys &= set(s.m)
        lost = set().union(*[set(s.m) for s in ss]) - keys
        for k in lost:
            # known in some states only: written there, or just looked at
            if k[0] == 'v' and not (drop_locals and k not in pre.m): out.m[k] = None
        changed = []
        for k in sorted(keys, key=str):
            if drop_locals and k[0] == 'v' and k not in pre.m: continue
            v = ss[0].m[k]
            if all(self.same(v, s.m[k]) for s in ss[1:]): out.m[k] = v
            else: changed.append(k)
        cand = []; zero = ZERO
        for k in changed:
            vs = [s.m[k] for s in ss]; v = vs[0]; p = pre.m.get(k)
            if all(isinstance(x, L) for x in vs):
                bs = [self.rng(x) for x in vs]; lo = [b[0] for b in bs]; hi = [b[1] for b in bs]
                n = self.sym(None if None in lo else min(lo), None if None in hi else max(hi), any(self.taint(x) for x in vs), 'joined value')
                out.m[k] = n; fn = lambda x: x
                for c in (0, 1): cand.append((k, lambda x, c=c: sub(x, K(c)))); 
                if isinstance(p, L):
                    for c in (0, 1): cand.append((k, lambda x, p=p, c=c: sub(sub(x, p), K(c)))); cand.append((k, lambda x, p=p, c=c: sub(sub(p, x), K(c))))
                for z in getattr(self, 'input_sizes', []): cand.append((k, lambda x, z=z: sub(z, x)))
            elif all(isinstance(x, Ptr) and x.reg is v.reg for x in vs):
                out.m[k] = Ptr(v.reg, self.sym(-BIG, BIG, v.reg.taint, 'joined offset'))
                cand.append((k, lambda x: x.off)); cand.append((k, lambda x: sub(x.reg.size, x.off)))
                if isinstance(p, Ptr) and p.reg is v.reg:
                    for c in (1, 0): cand.append((k, lambda x, p=p, c=c: sub(sub(x.off, p.off), K(c))))
            elif all(isinstance(x, View) and x.reg is v.reg for x in vs):
                out.m[k] = View(v.reg, self.sym(-BIG, BIG, v.reg.taint, 'joined offset'), self.sym(0, BIG, v.reg.taint, 'length of text'))
                cand.append((k, lambda x: x.off)); cand.append((k, lambda x: sub(sub(x.reg.size, x.off), x.len)))
                cand.append((k, lambda x: sub(x.len, ONE)))
            elif all(isinstance(x, (View, Str)) for x in vs):
                z = self.sym(0, BIG, True, 'length of text'); nul = all(x.reg.nul for x in vs)
                out.m[k] = Str(z, Region(z, nul, True, v.reg.name)) if isinstance(v, Str) else View(Region(z, nul, True, v.reg.name), ZERO, z)
                cand.append((k, lambda x: sub(x.len, ONE)))
                if isinstance(p, Str): cand.append((k, lambda x, p=p: sub(x.len, p.len)))
            elif k[0] == 'v' or k == self.RET: out.m[k] = None
            # fields that are unknown afterwards are dropped
        for k, g in cand:
            if all(self.entails(s, g(s.m[k])) for s in ss): self.know(out, g(out.m[k]))
        return out
    def join_returns(self, out, pre, limit=6):
        if len(out) <= limit: return out
        groups = {}
        for s, v in out:
            if isinstance(v, L): key = ('c', v.c) if not v.t else ('L',)
            elif isinstance(v, (View, Str)): key = ('V', v.reg.id if isinstance(v, View) else 0)
            elif isinstance(v, Ptr): key = ('P', v.reg.id)
            elif v is None: key = ('n',)
            else: key = ('u', id(v)) if not isinstance(v, tuple) else ('t', v)
            groups.setdefault(key, []).append((s, v))
        r = []
        for key, xs in groups.items():
            for s, v in xs: s.m[self.RET] = v
            j = self.join([s for s, _ in xs], pre, True)
            r.append((j, j.m.pop(self.RET, None)))
        return r
    def merge(self, xs):
        seen = {}; out = []
        for s, f in xs:
            if f is not None: out.append((s, f)); continue
            k = (s.facts, s.ne, tuple(sorted((str(x), id(v) if not isinstance(v, (L, Ptr, View, Str)) else hash(v)) for x, v in s.m.items())))
            if k in seen: continue
            seen[k] = 1; out.append((s, f))
        return out
    def s_decl(self, n, st):
        acc = [st]
        for v in n['v']: acc = [s2 for s in acc for s2 in self.declvar(v, s)]
        return [(s, None) for s in acc]
    def declvar(self, v, st):
        k = ('v', v['d']); st.m.pop(k, None)
        for x in [x for x in st.m if x[0] == 'f' and self.below(x, k)]: del st.m[x]
        i = v.get('init')
        if i is None:
            b = bare(v['t'])
            st.m[k] = self.initial(st, k, v['t'], v['n']) if not (is_str(b) or is_bytevec(b)) else Str(ZERO, Region(ZERO, True, True, v['n']))
            r = [st]
        elif v.get('ref') and (not v.get('binds') or all(l is not None and l[0] == 'o' for _, l in self.lv(i, st.fork()))):
            r = []
            for s, l in self.lv(i, st):
                if l is not None and l[0] in ('v', 'f', 'o', 'p', 'bits'):
                    if l[0] in ('v', 'f', 'o'): s.m[k] = Ref(self.resolve(s, l)) if self.resolve(s, l) != k else None
                    else: s.m[k] = Ref(l)
                else: s.m[k] = self.coerce(s, l[1] if l else None, v['t'])
                r.append(s)
        else:
            r = []
            for s, x in self.ev(i, st):
                if isinstance(x, tuple) and x and x[0] == 'objv': s.m[k] = Ref(x[1])
                else:
                    if bare(v['t']) in INT and not isinstance(x, L): x = self.typed(v['t'], False, v['n'])
                    if isinstance(x, Str) and is_str(v['t']): x = Str(x.len, Region(x.len, True, True, v['n']))
                    if x is None and (is_str(v['t']) or is_view(v['t']) or arr_of(v['t'])): x = self.initial(s, k, v['t'], v['n'])
                    s.m[k] = self.coerce(s, x, v['t'])
                r.append(s)
        for b in v.get('binds') or []:
            nx = []
            for s in r:
                if b.get('init'):
                    for s2, x in self.ev(b['init'], s): s2.m[('v', b['d'])] = x if x is not None else self.initial(s2, None, b.get('t') or ''); nx.append(s2)
                else: s.m[('v', b['d'])] = self.initial(s, None, b.get('t') or ''); nx.append(s)
            r = nx
        return r
    def s_if(self, n, st):
        acc = [s for s, _ in self.ex(n['init'], st)] if 'init' in n else [st]
        if 'var' in n: acc = [s2 for s in acc for s2 in self.declvar(n['var'], s)]
        out = []
        for s in acc:
            if n.get('cx') and 'cv' in n: out.extend(self.ex(n['th'] if n['cv'] else n.get('el'), s)); continue
            for s2, b in self.cond(n['c'], s): out.extend(self.ex(n['th'] if b else n.get('el'), s2))
        return out
    def s_ret(self, n, st):
        if not n.get('e'): return [(st, ('ret', None))]
        if getattr(self, 'stack_ret', None) and self.stack_ret[-1] and self.stack and getattr(self.stack[-1][0], 'rt', '').endswith('&'):
            out = []
            for s, k in self.lv(n['e'], st): out.append((s, ('ret', ('lv', self.resolve(s, k)) if k is not None and k[0] in ('v', 'f', 'p', 'o', 'bits') else k[1] if k is not None else None)))
            return out
        rt = getattr(self.stack[-1][0], 'rt', None) if self.stack else None
        return [(s, ('ret', self.coerce(s, v, rt))) for s, v in self.ev(n['e'], st)]
    def s_brk(self, n, st): return [(st, 'brk')]
    def s_cont(self, n, st): return [(st, 'cont')]
    def s_nop(self, n, st): return [(st, None)]
    def s_unkstmt(self, n, st): return [(st, None)]
    def s_try(self, n, st):
        self.sinks.append([])
        st0 = st.fork()
        r = self.ex(n['b'], st)
        thrown = self.sinks.pop()
        out = list(r)
        for h in n['h']:
            for s in [st0.fork()] + [t.fork() for t in thrown]: 
                if h.get('v'): s.m[('v', h['v']['d'])] = None
                out.extend(self.ex(h['b'], s))
        return out
    def s_switch(self, n, st):
        acc = [s for s, _ in self.ex(n['init'], st)] if 'init' in n else [st]
        if 'var' in n: acc = [s2 for s in acc for s2 in self.declvar(n['var'], s)]
        out = []
        for s0 in acc:
            for s, v in self.ev(n['c'], s0):
                cur = [s]; cs = n['cs']; hasdef = any(l['k'] == 'default' for c in cs for l in c['lb'])
                for i, c in enumerate(cs):
                    for l in c['lb']:
                        f = s.fork()
                        if l['k'] != 'default' and isinstance(v, L):
                            e = [(x, y) for x, y in self.ev(l, f)]
                            if e and isinstance(e[0][1], L) and not self.eq(f, sub(v, e[0][1])): continue
                        run = [(f, None)]
                        for c2 in cs[i:]:
                            nx = []
                            for x, fl in run:
                                if fl is not None: nx.append((x, fl)); continue
                                nx.extend(self.s_blk({'s': c2['s']}, x))
                            run = nx
                        out.extend((x, None if fl == 'brk' else fl) for x, fl in run)
                if not hasdef: out.append((s, None))
        return out
    # loops
    def s_for(self, n, st):
        out = []
        for s, _ in (self.ex(n['init'], st) if 'init' in n else [(st, None)]): out.extend(self.loop(n, s, n.get('c'), n['b'], n.get('inc')))
        return out
    def s_while(self, n, st): return self.loop(n, st, n['c'], n['b'], None, var=n.get('var'))
    def s_do(self, n, st): return self.loop(n, st, n['c'], n['b'], None, post=True)
    def s_rfor(self, n, st):
        out = []
        for s, _ in (self.ex(n['init'], st) if 'init' in n else [(st, None)]):
            for s2, v in self.ev(n['r'], s):
                if isinstance(v, tuple) and v and v[0] == 'rows':
                    out.extend(self.over_rows(n, s2, self.rows[v[1]])); continue
                out.extend(self.loop(n, s2, None, n['b'], None, rng=(v, n['v'])))
        return out
    def over_rows(self, n, st, rows):
        cur = [st]; out = []; d = n['v']
        for r in rows:
            nx = []
            for s in cur:
                o = self.row(s, r)
                if d.get('d') is not None: s.m[('v', d['d'])] = Ref(o)
                for b in d.get('binds') or []:
                    for s, x in (self.ev(b['init'], s) if b.get('init') else [(s, None)])[:1]: s.m[('v', b['d'])] = x
                for s2, f in self.ex(n['b'], s):
                    if f == 'brk': out.append((s2, None))
                    elif isinstance(f, tuple): out.append((s2, f))
                    else: nx.append(s2)
            cur = nx
        return out + [(s, None) for s in cur]
    def one(self, n, st, cond, body, inc, var, post, rng):
        """one iteration from a head state: (states at the next head, states that leave, final states)"""
        nxt = []; leave = []
        if rng:
            leave.append((st.fork(), None)); v, d = rng
            if 'binds' in d:
                for b in d['binds']: st.m[('v', b['d'])] = self.initial(st, None, b.get('t') or '')
            else: st.m[('v', d['d'])] = self.initial(st, None, d['t'], d['n'])
            start = [st]
        elif post or cond is None: start = [st]
        else:
            start = []
            for s1 in (self.declvar(var, st) if var else [st]):
                for s, b in self.cond(cond, s1): start.append(s) if b else leave.append((s, None))
        for s in start:
            for s2, f in self.ex(body, s):
                if f == 'brk': leave.append((s2, None)); continue
                if isinstance(f, tuple): leave.append((s2, f)); continue
                ss = [x for x, _ in self.ev(inc, s2)] if inc else [s2]
                for s3 in ss:
                    if post:
                        for s4, b in self.cond(cond, s3): nxt.append(s4) if b else leave.append((s4, None))
                    else: nxt.append(s3)
        return nxt, leave, start
    def unroll(self, n, st, cond, body, inc, var, post):
        """iterations whose condition is decided are executed one by one; None if it is not decided"""
        if cond is None or post: return None
        self.quiet += 1; self.sinks.append([])
        try:
            cur = [st.fork()]; total = 0
            for it in range(70):
                go = []
                for s in cur:
                    r = self.cond(cond, s.fork()) if not var else [(0, True), (0, False)]
                    bs = {b for _, b in r}
                    if len(bs) == 2: return None
                    if bs == {True}: go.append(s)
                total += len(go)
                if not go: break
                if len(go) > 24: return None
                nx, lv, _ = [], [], 0
                for s in go:
                    a, b, c = self.one(n, s, cond, body, inc, var, post, None); nx += a
                cur = nx
            else: return None
        finally: self.quiet -= 1; self.sinks.pop()
        out = []; cur = [st]
        while cur:
            nx = []
            for s in cur:
                a, b, _ = self.one(n, s, cond, body, inc, var, post, None); nx += a; out += b
            cur = nx
        return out
    def loop(self, n, st, cond, body, inc, var=None, post=False, rng=None):
        if not rng:
            r = self.unroll(n, st, cond, body, inc, var, post)
            if r is not None:
                self.looped(n, 'unrolled'); return r
        mk = (id(n), tuple(x[0].u for x in self.stack)); mem = self.loopmem.get(mk) if self.quiet else None
        # what the loop uses is given a value before it starts
        if mem: found = mem[0]; no = self.no
        else:
            old = self.lazy; self.lazy = []; no = self.no; self.quiet += 1; self.sinks.append([])
            try: self.one(n, st.fork(), cond, body, inc, var, post, rng)
            finally: self.quiet -= 1; self.sinks.pop(); found = self.lazy; self.lazy = old
            if old is not None: old.extend(found)
        for key, t, name, q in found:
            r = key
            while r[0] == 'f': r = r[1]
            if key not in st.m and key[0] == 'f' and (r in st.m or (r[0] == 'o' and (r[1] == 'this' or (isinstance(r[1], int) and r[1] <= no)))): self.rd(st, key, t, name, q)
        base = dict(st.m)
        # locations the body changes, found by running it from states in which they are unknown
        changed = {k for k in mem[1] if k in base} if mem else set(); d0 = {}
        cand = [c for c in mem[2] if c[1] in changed and (c[0] != 'rel' or c[2] in changed)] if mem else []
        def attempt(quiet=True):
            h = st.fork(); self.generic(h, base, changed, cand); hm = dict(h.m)
            if quiet: self.quiet += 1; sink = []; self.sinks.append(sink)
            try: nx, leave, start = self.one(n, h, cond, body, inc, var, post, rng)
            finally:
                if quiet: self.quiet -= 1; self.sinks.pop()
            return h, hm, nx, leave, start, sink if quiet else None
        for rnd in range(18):
            h, hm, nx, leave, start, sink = attempt()
            new = set()
            for s in nx:
                for k, v in s.m.items():
                    if k in base and k not in changed and not self.same(v, base[k]): new.add(k)
                for k in base:
                    if k not in s.m and k not in changed: new.add(k)
            if new: changed |= new; cand = []; full = False; mem = None; continue
            if rnd >= 0 and not mem and not (d0.get('full')):
                # candidate invariants, dropped until the rest is inductive
                deltas = [{k: self.delta(hm.get(k), s.m.get(k)) for k in changed} for s in nx]
                cand = self.candidates(base, changed, deltas); d0['full'] = True; continue
            keep = [c for c in cand if all(self.holds(s, base, c) for s in nx)]
            if len(keep) == len(cand): break
            cand = keep
        else: raise Limit('no invariant found for a loop')
        self.loopmem[mk] = (list(found), set(changed), list(cand))
        if not self.quiet: h, hm, nx, leave, start, sink = attempt(False)
        else: self.sinks[-1].extend(sink)
        out = list(leave)
        # termination: something strictly progresses towards a bound in every iteration
        if not rng: self.terminates(n, base, changed, hm, nx, start, cond)
        return out
    def same(self, a, b): return a is b or (type(a) is type(b) and a == b)
    def delta(self, a, b):
        if isinstance(a, L) and isinstance(b, L): d = sub(b, a)
        elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg: d = sub(b.off, a.off)
        elif isinstance(a, View) and isinstance(b, View) and a.reg is b.reg: d = sub(b.off, a.off)
        else: return None
        return d.c if not d.t else None
    def generic(self, h, base, changed, cand):
        for k in changed:
            v = base[k]
            if isinstance(v, L):
                r = self.rng_of(v); h.m[k] = self.sym(r[0], r[1], True if self.taint(v) else False, 'loop value')
            elif isinstance(v, Ptr): h.m[k] = Ptr(v.reg, self.sym(-BIG, BIG, v.reg.taint, 'loop offset'))
            elif isinstance(v, View):
                h.m[k] = View(v.reg, self.sym(-BIG, BIG, v.reg.taint, 'loop offset'), self.sym(0, BIG, v.reg.taint, 'loop length'))
            elif isinstance(v, Str):
                z = self.sym(0, BIG, True, 'length of text'); h.m[k] = Str(z, Region(z, v.reg.nul, v.reg.taint, v.reg.name))
            else:
                h.m.pop(k, None)
                if k[0] == 'v': h.m[k] = None
        for c in cand:
            for g in self.formula(h, base, c): self.know(h, g)
    def rng_of(self, v): return (-BIG * 4, BIG * 4)
    def parts(self, m, k):
        v = m.get(k)
        if isinstance(v, L): return v
        if isinstance(v, (Ptr, View)): return v.off
        if isinstance(v, Str): return v.len
        return None
    def candidates(self, base, changed, deltas):
        c = []
        for k in changed:
            v = base[k]
            if isinstance(v, L): c += [('ge0', k), ('le0', k), ('gec', k, 0), ('gec', k, -1), ('lec', k, 2**64 - 1), ('lec', k, 2**31 - 1), ('gec', k, -2**63)]
            elif isinstance(v, Ptr): c += [('ge0', k), ('pge', k), ('ple', k), ('le0', k)]
            elif isinstance(v, Str): c += [('ge0', k)]
            elif isinstance(v, View): c += [('ge0', k), ('end', k), ('vle', k), ('pge', k), ('len0', k)]
        ks = sorted((k for k in changed if isinstance(base[k], (L, Ptr, View))), key=str)
        if deltas:
            const = {}
            for k in ks:
                ds = {d.get(k) for d in deltas}
                if len(ds) == 1 and None not in ds: const[k] = ds.pop()
            cs = sorted(const, key=str)
            for i, a in enumerate(cs):
                for b in cs[i + 1:]:
                    if const[a] and const[b]: c.append(('rel', a, b, const[b], const[a]))
        return c
    def formula(self, st, base, c):
        k = c[1]; x = self.parts(st.m, k); x0 = self.parts(base, k); v = st.m.get(k)
        if x is None: return [K(-1)] if st.m is not None and c[0] != 'rel' else [K(-1)]
        if c[0] == 'ge0': return [sub(x, x0)]
        if c[0] == 'le0': return [sub(x0, x)]
        if c[0] == 'gec': return [sub(x, K(c[2]))]
        if c[0] == 'lec': return [sub(K(c[2]), x)]
        if c[0] == 'pge': return [x]
        if c[0] == 'ple': return [sub(v.reg.size, x)]
        if c[0] == 'vle': return [sub(sub(v.reg.size, x), v.len)]
        if c[0] == 'end':
            b = base[k]; d = sub(add(x, v.len), add(x0, b.len)); return [d, mul(d, -1)]
        if c[0] == 'len0': d = sub(v.len, base[k].len); return [d, mul(d, -1)]
        y = self.parts(st.m, c[2]); y0 = self.parts(base, c[2])
        if y is None: return [K(-1)]
        d = sub(mul(sub(x, x0), c[3]), mul(sub(y, y0), c[4])); return [d, mul(d, -1)]
    def holds(self, s, base, c):
        v = s.m.get(c[1]); b = base.get(c[1])
        if type(v) is not type(b): return False
        if isinstance(v, (Ptr, View)) and v.reg is not b.reg: return False
        return all(self.entails(s, g) for g in self.formula(s, base, c))
    def looped(self, n, how):
        if not self.quiet: self.loops[(self.stack[-1][0].q, n.get('l'))] = how
    def terminates(self, n, base, changed, hm, nx, start, cond):
        if self.quiet: return
        if not nx: self.looped(n, 'left in the first iteration'); self.ob('terminate', True, n); return
        for k in sorted(changed, key=str):
            x = self.parts(hm, k)
            if x is None: continue
            up = all(self.parts(s.m, k) is not None and type(s.m[k]) is type(hm[k]) and (not isinstance(s.m[k], (Ptr, View)) or s.m[k].reg is hm[k].reg) and self.entails(s, sub(sub(self.parts(s.m, k), x), ONE)) for s in nx)
            dn = all(self.parts(s.m, k) is not None and type(s.m[k]) is type(hm[k]) and (not isinstance(s.m[k], (Ptr, View)) or s.m[k].reg is hm[k].reg) and self.entails(s, sub(sub(x, self.parts(s.m, k)), ONE)) for s in nx)
            own = {s for s, _ in x.t}
            loopsyms = set()
            for c in changed:
                p = self.parts(hm, c)
                if p is not None: loopsyms |= {s for s, _ in p.t}
            bound = None
            if up:
                if isinstance(hm[k], (Ptr, View)): bound = all(self.entails(s, sub(hm[k].reg.size, self.parts(s.m, k))) for s in nx)
                else: bound = all(any(dict(f.t).get(next(iter(own)), 0) < 0 and not any(s in loopsyms and s not in own for s, _ in f.t) for f in s.facts) for s in start)
            elif dn:
                if isinstance(hm[k], (Ptr, View)): bound = all(self.entails(s, self.parts(s.m, k)) for s in nx)
                else: bound = all(any(dict(f.t).get(next(iter(own)), 0) > 0 and not any(s in loopsyms and s not in own for s, _ in f.t) for f in s.facts) for s in start)
            if bound: self.looped(n, ('increases' if up else 'decreases') + ' ' + str(k[-1])); self.ob('terminate', True, n); return
        self.looped(n, 'no measure found'); self.ob('terminate', False, n, 'nothing is known to progress towards a bound in every iteration of the loop')
