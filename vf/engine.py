"""Path-sensitive, value-numbered dataflow over the resolved program (ESP-style: abstract states carry a finite
valuation of branch atoms and the history of the effects a rule observes; helper functions and lambdas are analysed
in the context of their caller, loops are abstracted to "none" and "one generic iteration"). Nothing is executed and
no constraint solver is involved: two states are distinguished only by the syntactic value numbers of their atoms."""
import re
from .program import AnalysisBroken, rel

# ---------------------------------------------------------------- hash-consed terms
class Term:
    __slots__ = ('op', 'a', 'id')
    _tab = {}
    def __repr__(self): return show(self)
def T(op, *a):
    k = (op,) + a
    t = Term._tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.a = a; t.id = len(Term._tab)
        Term._tab[k] = t
    return t

def show(t, d=0):
    if not isinstance(t, Term): return repr(t) if isinstance(t, str) else str(t)
    if d > 7: return '...'
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == 'c': return str(a[0])
    if o == 'str': return '"%s"' % a[0]
    if o == 'this': return 'this'
    if o == 'par': return a[0]
    if o == 'var': return a[1]
    if o == 'fld': return '%s.%s' % (s(a[0]), a[1])
    if o == 'deref': return '*%s' % s(a[0])
    if o == 'addr': return '&%s' % s(a[0])
    if o == 'enum': return a[0].rsplit('::', 1)[-1]
    if o == 'elem': return 'each(%s)' % s(a[0])
    if o == 'pc': return '%s%s(%s)' % (s(a[1]) + '.' if a[1] is not None else '', a[0].rsplit('::', 1)[-1], ', '.join(s(x) for x in a[2:-1]))
    if o == 'ret': return '%s()' % a[0].rsplit('::', 1)[-1]
    if o == 'some': return 'some(%s)' % s(a[0])
    if o == 'struct': return '%s{%s}' % (a[0].rsplit('::', 1)[-1], ', '.join('%s=%s' % (n, s(v)) for n, v in a[1]))
    if o == 'lam': return '<lambda:%s>' % a[1]
    if o == '==': return '%s == %s' % (s(a[0]), s(a[1]))
    if o == 'not': return '!(%s)' % s(a[0])
    if o == 'int': return a[0]
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))

TRUE = T('c', True); FALSE = T('c', False); NULL = T('null'); THIS = T('this'); NONE = T('none'); VOID = T('void')
def C(v): return T('c', v)
def walk(t):
    """all sub-terms"""
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x.id in seen:
            if isinstance(x, tuple): st.extend(x)
            continue
        seen.add(x.id); yield x
        st.extend(x.a)
def mentions(t, p):
    return any(p(x) for x in walk(t))

class Ev:
    """an observed effect"""
    __slots__ = ('k', 'q', 'o', 'a', 'node', 'fn', 'facts', 'trys', 'loops', 'ret', 'extra', 'caught')
    def loc(self): return '%s:%s' % (rel(self.fn.file) if self.fn else '?', self.node.get('l', '?') if self.node else '?')
    def name(self): return self.q.rsplit('::', 1)[-1]
    def __repr__(self): return '<%s %s o=%s a=%s @%s>' % (self.k, self.q, show(self.o) if self.o is not None else None, [show(x) for x in self.a], self.loc())

class LFrame(tuple):
    """stack frame of a lambda: the function that created it is not being executed"""
    __slots__ = ()

class St:
    __slots__ = ('env', 'heap', 'facts', 'tr', 'trys', 'loops', 'ver', 'n', 'exc', 'eq')
    def __init__(s):
        s.env = {}; s.heap = {}; s.facts = {}; s.tr = (); s.trys = (); s.loops = (); s.ver = {}; s.n = 0; s.exc = (); s.eq = {}
    def fork(s):
        t = St.__new__(St)
        t.env = dict(s.env); t.heap = dict(s.heap); t.facts = s.facts; t.tr = s.tr; t.trys = s.trys; t.loops = s.loops
        t.ver = s.ver; t.n = s.n; t.exc = s.exc; t.eq = s.eq
        return t
    def key(s):
        return (frozenset(s.env.items()), frozenset(s.heap.items()), frozenset(s.facts.items()), s.tr, s.trys, s.loops, s.exc)
    # rule helpers
    def events(s, name=None, k=None, pred=None):
        for e in s.tr:
            if name is not None and not (e.q == name or e.q.endswith('::' + name)): continue
            if k is not None and e.k != k: continue
            if pred is not None and not pred(e): continue
            yield e

class Path:
    __slots__ = ('st', 'how', 'val')
    def __init__(s, st, how, val): s.st = st; s.how = how; s.val = val
    @property
    def tr(s): return s.st.tr
    @property
    def facts(s): return s.st.facts
    def describe(s):
        return '; '.join(('' if v else '!') + show(a) for a, v in s.facts.items())

IDENT = {'std::move', 'std::forward', 'std::as_const', 'std::launder', 'std::addressof', 'std::ref', 'std::cref', 'std::__addressof', 'std::static_pointer_cast',
         'std::dynamic_pointer_cast', 'std::move_if_noexcept'}
SMART = ('unique_ptr<', 'shared_ptr<', '__shared_ptr_access<', '__shared_ptr<', 'std::optional<', 'reference_wrapper<', 'weak_ptr<')
PURE_NAMES = {'find', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'at', 'operator[]', 'get', 'front', 'back', 'data', 'value', 'count', 'size', 'empty', 'lower_bound', 'upper_bound',
              'equal_range', 'contains', 'lock', 'expired', 'use_count', 'c_str', 'has_value', 'valid', 'what', 'length', 'native_handle', 'is_open', 'get_executor', 'use_count'}
STDEXC = {'std::exception': None, 'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::invalid_argument': 'std::logic_error',
          'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error', 'std::system_error': 'std::runtime_error',
          'std::bad_alloc': 'std::exception', 'std::bad_optional_access': 'std::exception', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
          'boost::system::system_error': 'std::runtime_error'}

def strip_type(t):
    t = t.strip()
    while True:
        if t.startswith('const '): t = t[6:]
        elif t.endswith('&&'): t = t[:-2].strip()
        elif t.endswith('&') or t.endswith('*const') : t = t[:-1].strip() if t.endswith('&') else t[:-5].strip()
        elif t.endswith(' const'): t = t[:-6]
        else: return t

def is_prop_type(t):
    t = strip_type(t or '')
    return t.endswith('_pt') or t.startswith('dots::type::StaticProperty<') or t.startswith('dots::type::Property<') or t.startswith('dots::type::ProxyProperty') or 'type::StaticProperty<' in t[:40] or t.endswith('_i')

def is_opt_type(t): return strip_type(t or '').startswith('std::optional<')

class Limit(Exception): pass
NOTHROW = lambda ev: False
TYPE_SYSTEM = ('dots::type::', 'dots::types::', 'dots::serialization::')

class Engine:
    def __init__(self, P, opaque=(), depth=7, max_states=6000, inline=None, may_throw=None, this_cls=None, unroll=1, keep_log=False, rec_pure=None, rec_deref=False, rec_loop=False, rec_acc=None, rec_scope=False, after_throw=None, after=None):
        self.rec_loop = rec_loop
        """opaque: predicate(Fn)->bool or collection of qualified names never inlined"""
        self.P = P
        self.opaque = opaque if callable(opaque) else (lambda f, s=set(opaque): f.q in s)
        self.inline = inline
        self.depth = depth; self.max = max_states
        self.may_throw = may_throw or NOTHROW
        self.rec_pure = rec_pure; self.rec_deref = rec_deref; self.rec_acc = rec_acc; self.rec_scope = rec_scope; self.after_throw = after_throw; self.after = after
        self.this_cls = this_cls
        self.stack = []; self.sinks = []
        self.visited = set(); self.ncalls = 0; self.npaths = 0
        self.keep_log = keep_log
        self.loopn = 0

    # ------------------------------------------------------------ public
    def run(self, fn, this=THIS, args=None, st=None):
        """all abstract paths through fn; returns [Path]"""
        st = st or St()
        self.sinks.append([])
        argt = []
        for i, p in enumerate(fn.ps):
            argt.append(args[i] if args and i < len(args) and args[i] is not None else T('par', p['n'] or '#%d' % i))
        out = [Path(s, 'ret', v) for s, v in self.call_fn(fn, this, argt, st)]
        for s, ex in self.sinks.pop(): out.append(Path(s, 'throw', ex))
        self.npaths += len(out)
        return out

    def run_lambda(self, lam, st, args, this=THIS):
        self.sinks.append([])
        out = [Path(s, 'ret', v) for s, v in self.call_lambda(lam, args, st)]
        for s, ex in self.sinks.pop(): out.append(Path(s, 'throw', ex))
        return out

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, this, args, st):
        if not (fn.ne and self.stack) or fn.kind == 'dtor': return self.call_fn_(fn, this, args, st)
        # an exception that would leave a noexcept function ends the program
        trys, st.trys = st.trys, ()
        self.sinks.append([])
        out = self.call_fn_(fn, this, args, st)
        for s, ex in self.sinks.pop():
            self.emit(s, 'terminate', fn.q, this, (ex,), {'l': fn.line})
            self.sinks[0].append((s, ex))
        for s, v in out: s.trys = trys
        return out
    def call_fn_(self, fn, this, args, st):
        self.visited.add(fn.u)
        self.stack.append((fn, this))
        if len(self.stack) > 60: raise AnalysisBroken('inlining too deep')
        try:
            for p, a in zip(fn.ps, args):
                st.env[p['d']] = self.bind(a, p['t'])
            states = [st]
            if fn.kind == 'ctor':
                for i in fn.inits:
                    nxt = []
                    for s in states:
                        for s2, v in self.ev(i['e'], s):
                            if 'n' in i and i['n'] != '<delegating>':
                                loc = T('fld', this, i['n'])
                                self.write(s2, loc, v)
                                self.emit(s2, 'init', i['q'], loc, (v,), i['e'] or {})
                            elif i.get('base') and v.op == 'new': self.emit(s2, 'basector', v.a[0], this, tuple(v.a[1:]), i['e'])
                            nxt.append(s2)
                    states = nxt
            res = []
            for s in states:
                for s2, fl in self.ex(fn.b, s):
                    v = fl[1] if isinstance(fl, tuple) else VOID
                    if fl is None or fl == ('ret', None): v = VOID
                    res.append((s2, v if v is not None else VOID))
            return res
        finally:
            self.stack.pop()

    def call_lambda(self, lam, args, st):
        node, this, fn = self.lams[lam.a[0]]
        body, ps = None, None
        if 'specs' in node:
            for s in node['specs']:
                if len(s['ps']) == len(args): body, ps = s['b'], s['ps']; break
        elif node.get('b') is not None: body, ps = node['b'], node['ps']
        if body is None: return [(st, T('ret', '<lambda>', st.n))]
        for p, a in zip(ps, args): st.env[p['d']] = self.bind(a, p['t'])
        self.stack.append(LFrame((fn, this)))
        try:
            res = []
            for s2, fl in self.ex(body, st):
                v = fl[1] if isinstance(fl, tuple) and fl[1] is not None else VOID
                res.append((s2, v))
            return res
        finally: self.stack.pop()
    lams = {}

    def bind(self, a, t):
        # locations (('var',..) etc.) passed to reference parameters are bound by reference
        return a

    # ------------------------------------------------------------ memory
    def this(self): return self.stack[-1][1] if self.stack else THIS
    def curfn(self): return self.stack[-1][0] if self.stack else None

    def rd(self, st, loc):
        """value stored at a location"""
        o = loc.op
        if o == 'var':
            v = st.env.get(loc.a[0])
            if v is None:
                v = loc
            elif v.op == 'refto': return self.rd(st, v.a[0])
            ups = self.overrides(st, loc)
            if ups and v.op != 'lam': v = T('upd', v, tuple(ups))
            if st.heap and v.op in ('par', 'var'):
                h = st.heap.get(T('deref', v))
                if h is not None: return T('some', h)
            return v
        h = st.heap.get(loc)
        if h is not None: 
            ups = self.overrides(st, loc)
            return T('upd', h, tuple(ups)) if ups else h
        if o == 'fld':
            b = loc.a[0]
            if b.op in ('var', 'fld', 'tmp'):
                bv = self.rd(st, b) if b.op != 'fld' or b in st.heap or b.a[0].op in ('var', 'fld') else b
                if bv is not b: return self.fieldof(bv, loc.a[1])
            elif b.op in ('struct', 'upd', 'pair', 'cond'):
                return self.fieldof(b, loc.a[1])
        return loc
    def overrides(self, st, loc):
        r = []
        for l, v in st.heap.items():
            if l.op == 'fld' and l.a[0] is loc: r.append((l.a[1], v))
        r.sort(key=lambda x: x[0])
        return r
    def fieldof(self, v, name):
        if v.op == 'upd':
            for n, x in v.a[1]:
                if n == name: return x
            return self.fieldof(v.a[0], name)
        if v.op == 'struct':
            for n, x in v.a[1]:
                if n == name: return x
            return NONE
        if v.op == 'pair' and name in ('first', 'second'): return v.a[0 if name == 'first' else 1]
        return T('fld', v, name)
    def write(self, st, loc, v):
        # forget overrides below loc
        if st.heap:
            for l in [l for l in st.heap if l.op == 'fld' and self.under(l, loc)]: del st.heap[l]
        if loc.op == 'var':
            cur = st.env.get(loc.a[0])
            if cur is not None and cur.op == 'refto': return self.write(st, cur.a[0], v)
            st.env[loc.a[0]] = v
        else: st.heap[loc] = v
    def under(self, l, loc):
        while l.op == 'fld':
            l = l.a[0]
            if l is loc: return True
        return False

    def deref(self, v):
        if v.op == 'addr': return v.a[0]
        if v.op == 'some': return v.a[0]
        if v.op == 'this': return v
        return T('deref', v)

    # ------------------------------------------------------------ events
    def emit(self, st, k, q, o, a, node, ret=None, extra=None):
        e = Ev(); e.k = k; e.q = q; e.o = o; e.a = tuple(a); e.node = node; e.fn = self.curfn(); e.facts = st.facts; e.trys = st.trys; e.loops = st.loops; e.ret = ret; e.extra = extra; e.caught = None
        st.tr = st.tr + (e,)
        self.ncalls += 1
        return e

    # ------------------------------------------------------------ atoms
    def norm(self, t):
        """(atom, polarity) of a boolean term, or (bool, None)"""
        if t.op == 'pc': t = self.truthy(t)
        if t.op == 'c': return (bool(t.a[0]), None)
        if t.op in ('null', 'none'): return (False, None)
        if t.op in ('addr', 'some', 'lam', 'str', 'struct', 'new'): return (True, None)
        if t.op == 'int': return (int(t.a[0]) != 0, None)
        if t.op == 'empty':
            x = t.a[0]
            if x.op == 'new' and len(x.a) == 1 and isinstance(x.a[0], str) and re.match(r'std::(__cxx11::)?(vector|list|deque|set|map|unordered_set|unordered_map|multimap|basic_string)<', x.a[0]): return (True, None)
            if x.op == 'mut' and x.a[0] in ('emplace_back', 'push_back', 'emplace', 'insert', 'emplace_front', 'push_front'): return (False, None)
        if t.op == 'not':
            a, p = self.norm(t.a[0])
            return (a, not p) if p is not None else (not a, None)
        return (t, True)

    def known(self, st, t):
        a, p = self.norm(t)
        if p is None: return a
        v = st.facts.get(a)
        if v is not None: return v == p
        # equality with distinct constants
        if a.op == '==' and self.isconst(a.a[1]):
            e = st.eq.get(a.a[0])
            if e is not None and self.isconst(e): return (e is a.a[1]) == p
        return None
    def isconst(self, t): return t.op in ('c', 'enum', 'str', 'int', 'fnref', 'typeidc')

    def assume(self, st, t, val):
        """returns False if contradictory"""
        k = self.known(st, t)
        if k is not None: return k == val
        a, p = self.norm(t)
        f = dict(st.facts); f[a] = (val == p); st.facts = f
        if a.op == '==' and f[a] and self.isconst(a.a[1]):
            e = dict(st.eq); e[a.a[0]] = a.a[1]; st.eq = e
        return True

    def branch(self, st, t):
        """[(state, bool)]"""
        k = self.known(st, t)
        if k is not None: return [(st, k)]
        s2 = st.fork()
        r = []
        if self.assume(st, t, True): r.append((st, True))
        if self.assume(s2, t, False): r.append((s2, False))
        return r

    def mk_not(self, t):
        if t.op == 'not': return t.a[0]
        if t.op == 'c': return C(not t.a[0])
        if t.op in ('null', 'none'): return TRUE
        return T('not', t)

    def mk_at(self, a, i): return T('elem', *i.a) if i.op == 'idx' and i.a[0] is a else T('at', a, i)
    def mk_eq(self, a, b):
        if a is b and a.op not in ('ret',): return TRUE
        # wrap/unwrapping of optional-like values
        if b.op in ('null', 'nullopt', 'none') : return self.mk_not(self.truthy(a))
        if a.op in ('null', 'nullopt', 'none') : return self.mk_not(self.truthy(b))
        if a.op == 'some': return self.mk_eq(a.a[0], b)
        if b.op == 'some': return self.mk_eq(a, b.a[0])
        if b.op == 'c' and isinstance(b.a[0], bool): return self.truthy(a) if b.a[0] else self.mk_not(self.truthy(a))
        if a.op == 'c' and isinstance(a.a[0], bool): return self.mk_eq(b, a)
        if self.isconst(a) and self.isconst(b): return C(a is b)
        if self.isconst(a): a, b = b, a
        # addresses
        if a.op == 'addr' and b.op == 'addr': return self.mk_eq(a.a[0], b.a[0])
        if b.op == 'addr' and a.op != 'addr': return self.mk_eq(self.deref(a), b.a[0])
        if a.op == 'addr' and b.op != 'addr': return self.mk_eq(a.a[0], self.deref(b))
        # container idioms
        for x, y in ((a, b), (b, a)):
            if self.isname(x, 'end') and self.isname(y, 'find') and x.a[1] is y.a[1]: return self.mk_not(T('has', y.a[1], y.a[2]))
            if self.isname(x, 'end') and self.isname(y, 'begin') and x.a[1] is y.a[1]: return T('empty', x.a[1])
            if self.isname(x, 'end') and y.op == 'found': return self.mk_not(T('truthy', y))
        if b.op == 'int' and b.a[0] == '0':
            if self.isname(a, 'size') or self.isname(a, 'length'): return T('empty', a.a[1])
            if self.isname(a, 'count') and len(a.a) > 3: return self.mk_not(T('has', a.a[1], a.a[2]))
        if not self.isconst(b) and not self.isconst(a) and b.id < a.id: a, b = b, a
        return T('==', a, b)
    def isname(self, t, n): return t.op == 'pc' and (t.a[0] == n or t.a[0].endswith('::' + n)) or (n in ('begin', 'end') and t.op == 'pc' and t.a[0].endswith('::c' + n))

    def mk_lt(self, a, b):
        if a.op == 'int' and b.op == 'int': return C(int(a.a[0]) < int(b.a[0]))
        if a.op == 'int' and a.a[0] == '0' and (self.isname(b, 'size') or self.isname(b, 'length')): return self.mk_not(T('empty', b.a[1]))
        if b.op == 'int' and b.a[0] == '1' and (self.isname(a, 'size') or self.isname(a, 'length')): return T('empty', a.a[1])
        return T('<', a, b)

    def truthy(self, t):
        if t.op == 'eptr': return C(t.a[0] is not NULL)
        if t.op == 'pc':
            n = t.a[0].rsplit('::', 1)[-1]
            if n in ('has_value',): return self.truthy(t.a[1])
            if n == 'contains' : return T('has', t.a[1], t.a[2])
            if n == 'find' and t.a[0].startswith('std::') and 'basic_string' not in t.a[0] and len(t.a) > 3: return T('has', t.a[1], t.a[2])
            if n == 'count' and len(t.a) > 3: return T('has', t.a[1], t.a[2])
            if n == 'empty' and len(t.a) == 3: return T('empty', t.a[1])
            if n == 'isValid': return self.truthy(t.a[1])
            if n in ('size', 'length') : return self.mk_not(T('empty', t.a[1]))
        return t

    def binop(self, op, a, b):
        if op == '==': return self.mk_eq(a, b)
        if op == '!=': return self.mk_not(self.mk_eq(a, b))
        if op == '<': return self.mk_lt(a, b)
        if op == '>': return self.mk_lt(b, a)
        if op == '>=': return self.mk_not(self.mk_lt(a, b))
        if op == '<=': return self.mk_not(self.mk_lt(b, a))
        if a.op == 'int' and b.op == 'int':
            x, y = int(a.a[0]), int(b.a[0])
            try:
                r = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if 0 <= y < 200 else None, '>>': x >> y if 0 <= y < 200 else None,
                     '/': x // y if y else None, '%': x % y if y else None}.get(op)
            except Exception: r = None
            if r is not None: return T('int', str(r))
        if op in ('+', '*', '&', '|', '^') and (b.id < a.id) and op != '+': a, b = b, a
        return T(op, a, b)

    # ------------------------------------------------------------ expressions: [(st, value)]
    def evs(self, nodes, st):
        """evaluate several expressions in order: [(st, [values])]"""
        acc = [(st, [])]
        for n in nodes:
            nx = []
            for s, vs in acc:
                for s2, v in self.ev(n, s): nx.append((s2, vs + [v]))
            acc = nx
        return acc

    def is_lvalue_arg(self, n): return True

    def lv(self, n, st):
        """location of an expression: [(st, loc)] — falls back to the value when it has none"""
        k = n['k'] if n else None
        if k == 'ref':
            d = n['d']
            if n.get('dk') == 'glob':
                return [(st, T('glob', n['q']))]
            v = st.env.get(d)
            if v is not None:
                if v.op == 'refto': return [(st, v.a[0])]
            return [(st, T('var', d, n['n']))]
        if k == 'mem':
            out = []
            if n.get('ar'):
                for s, b in self.ev(n['b'], st):
                    out.append((s, T('fld', self.deref(b) if b.op != 'this' else b, n['n'])))
            else:
                for s, b in self.lv(n['b'], st): out.append((s, T('fld', b, n['n'])))
            if self.rec_acc:
                for s, l in out:
                    if self.rec_acc(l): self.emit(s, 'acc', n['n'], l, (), n)
            return out
        if k == 'un' and n['op'] == '*': return [(s, self.deref(v)) for s, v in self.ev(n['e'], st)]
        if k == 'cast' and n['ck'] in ('NoOp', 'DerivedToBase', 'BaseToDerived', 'UncheckedDerivedToBase', 'ConstructorConversion', 'LValueBitCast') and n['w'] != 'functional': return self.lv(n['e'], st)
        if k == 'idx':
            return [(s, self.mk_at(vs[0], vs[1])) for s, vs in self.evs([n['b'], n['i']], st)]
        if k == 'call':
            if n['q'] in IDENT and n['a']: return self.lv(n['a'][0], st)
            return self.ev(n, st)
        if k in ('un',) and n['op'] in ('++', '--'):
            out = []
            for s, v in self.ev(n, st): out.extend(self.lv(n['e'], s))
            return out
        if k == 'asg':
            out = []
            for s, v in self.ev(n, st): out.extend(self.lv(n['l1'], s))
            return out
        if k == 'cond':
            out = []
            for s, c in self.ev(n['c'], st):
                for s2, b in self.branch(s, c): out.extend(self.lv(n['a1'] if b else n['a2'], s2))
            return out
        return self.ev(n, st)

    def ev(self, n, st):
        if n is None: return [(st, VOID)]
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise AnalysisBroken('no rule for node %s' % k)
        r = m(n, st)
        if len(r) > self.max: raise Limit('too many states')
        return r

    def e_int(self, n, st): return [(st, T('int', n['v']))]
    def e_bool(self, n, st): return [(st, C(bool(n['v'])))]
    def e_chr(self, n, st): return [(st, T('int', str(n['v'])))]
    def e_flt(self, n, st): return [(st, T('flt', n['v']))]
    def e_str(self, n, st): return [(st, T('str', n['v']))]
    def e_null(self, n, st): return [(st, NULL)]
    def e_this(self, n, st): return [(st, T('addr', self.this()) if self.this().op != 'this' else THIS)]
    def e_enum(self, n, st): return [(st, T('enum', n['q']))]
    def e_fn(self, n, st): return [(st, T('fnref', n['q'], n['f']))]
    def e_bound(self, n, st): return [(s, T('bound', n['q'], b)) for s, b in self.ev(n['b'], st)]
    def e_fieldref(self, n, st): return [(st, T('fieldref', n['q']))]
    def e_sizeof(self, n, st): return [(st, T('sizeof'))]
    def e_typeid(self, n, st):
        if 'e' in n: return [(s, T('typeid', v)) for s, v in self.ev(n['e'], st)]
        return [(st, T('typeidc', n['t']))]
    def e_zero(self, n, st): return [(st, T('zero', n['t']))]
    def e_unk(self, n, st):
        return [(s, T('unk', n.get('c'), *vs)) for s, vs in self.evs(n.get('ch', []), st)]
    def e_ref(self, n, st):
        if n.get('dk') == 'glob':
            if 'cv' in n: return [(st, T('int', n['cv']))] if n['cv'] not in ('true', 'false') else [(st, C(n['cv'] == 'true'))]
            if n['q'] == 'std::nullopt': return [(st, NULL)]
            loc = T('glob', n['q'])
            return [(st, st.heap.get(loc, loc))]
        v = st.env.get(n['d'])
        if v is not None and v.op == 'refto':
            return [(st, self.rd(st, v.a[0]))]
        return [(st, self.rd(st, T('var', n['d'], n['n'])))]
    def e_mem(self, n, st):
        return [(s, self.rd(s, l)) for s, l in self.lv(n, st)]
    def e_idx(self, n, st):
        return [(s, self.rd(s, l)) for s, l in self.lv(n, st)]
    def e_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            for s, v in self.ev(n['l1'], st):
                for s2, b in self.branch(s, v):
                    if op == '&&' and not b: out.append((s2, FALSE))
                    elif op == '||' and b: out.append((s2, TRUE))
                    else:
                        for s3, v3 in self.ev(n['r'], s2): out.append((s3, v3))
            return out
        if op == ',':
            out = []
            for s, v in self.ev(n['l1'], st): out.extend(self.ev(n['r'], s))
            return out
        if op in ('->*', '.*'):
            return [(s, T('memfn', self.deref(vs[0]) if op == '->*' and vs[0].op != 'this' else vs[0], vs[1])) for s, vs in self.evs([n['l1'], n['r']], st)]
        return [(s, self.binop(op, vs[0], vs[1])) for s, vs in self.evs([n['l1'], n['r']], st)]
    def e_asg(self, n, st):
        out = []
        for s, v in self.ev(n['r'], st):
            for s2, loc in self.lv(n['l1'], s):
                if n['op'] != '=': v2 = self.binop(n['op'][:-1], self.rd(s2, loc), v)
                else: v2 = v
                self.write(s2, loc, v2)
                if loc.op != 'var': self.emit(s2, 'set', self.fq(n['l1']), loc, (v2,), n)
                out.append((s2, v2))
        return out
    def fq(self, n):
        while n and n['k'] in ('un', 'idx', 'cast') : n = n.get('e') or n.get('b')
        return n.get('q', n.get('n', '?')) if n else '?'
    def e_un(self, n, st):
        op = n['op']
        if op == '!': return [(s, self.mk_not(self.truthy(v))) for s, v in self.ev(n['e'], st)]
        if op == '&':
            r = []
            for s, l in self.lv(n['e'], st):
                if l.op == 'deref': r.append((s, l.a[0]))
                elif l.op == 'fnref': r.append((s, l))
                else: r.append((s, T('addr', l) if l.op != 'this' else THIS))
            return r
        if op == '*': return [(s, self.rd(s, l)) for s, l in self.lv(n, st)]
        if op in ('++', '--', 'p++', 'p--'):
            out = []
            for s, loc in self.lv(n['e'], st):
                old = self.rd(s, loc)
                nv = self.binop('+' if '+' in op else '-', old, T('int', '1'))
                self.write(s, loc, nv)
                if loc.op != 'var': self.emit(s, 'set', self.fq(n['e']), loc, (nv,), n)
                out.append((s, old if op[0] == 'p' else nv))
            return out
        if op == '-':
            return [(s, T('int', str(-int(v.a[0]))) if v.op == 'int' else T('neg', v)) for s, v in self.ev(n['e'], st)]
        return [(s, v if op == '+' else T(op, v)) for s, v in self.ev(n['e'], st)]
    def e_cond(self, n, st):
        out = []
        for s, c in self.ev(n['c'], st):
            for s2, b in self.branch(s, self.truthy(c)): out.extend(self.ev(n['a1'] if b else n['a2'], s2))
        return out
    def e_icast(self, n, st): return self.ev(n['e'], st)
    def e_cast(self, n, st):
        if n['w'] == 'dynamic': return [(s, T('dyncast', n['t'], v)) for s, v in self.ev(n['e'], st)]
        if self.rec_cast and n['w'] in ('static', 'c', 'cstyle', 'functional') and self.rec_cast(n['t']): return [(s, v if v.op == 'int' else T('cast', n['t'], v)) for s, v in self.ev(n['e'], st)]
        return self.ev(n['e'], st)
    rec_cast = None
    def e_lambda(self, n, st):
        key = id(n)
        if key not in Engine.lams or Engine.lams[key][1] is not self.this(): Engine.lams[key] = (n, self.this(), self.curfn())
        states = [st]
        for c in n['caps']:
            if c.get('ic') and c.get('init'):
                nx = []
                for s in states:
                    for s2, v in self.ev(c['init'], s): s2.env[c['d']] = v; nx.append(s2)
                states = nx
        return [(s, T('lam', key, n['l'])) for s in states]
    def e_init(self, n, st):
        out = []
        fns = n.get('fn')
        for s, vs in self.evs(n['a'], st):
            if len(vs) == 1 and n['t'].startswith(('std::shared_ptr', 'std::weak_ptr', 'std::unique_ptr', 'std::function', 'std::optional')): out.append((s, vs[0]))
            elif fns and len(fns) == len(vs):
                fields = []
                for nm, v, nd in zip(fns, vs, n['a']):
                    if nm == '<base>': continue
                    fields.append((nm, v))
                out.append((s, T('struct', n['t'], tuple(fields))))
            elif len(vs) == 1 and not fns: out.append((s, vs[0] if not n['t'].endswith(']') else T('list', *vs)))
            elif not vs: out.append((s, T('zero', n['t'])))
            else: out.append((s, T('list', *vs)))
        return out
    def e_new(self, n, st):
        out = []
        for s, vs in self.evs(n.get('pl', []) + ([n['init']] if 'init' in n else []), st):
            s.n += 1
            v = T('heapobj', n['t'], s.n)
            self.emit(s, 'new', n['t'], None, vs, n, ret=v)
            out.append((s, v))
        return out
    def e_delete(self, n, st):
        out = []
        for s, v in self.ev(n['e'], st): self.emit(s, 'delete', 'delete', v, (), n); out.append((s, VOID))
        return out
    def e_throw(self, n, st):
        if 'e' not in n:
            ex = st.exc[-1] if st.exc else T('exc', '?', NULL)
            self.emit(st, 'throw', 'rethrow', None, (), n)
            self.raise_(st, ex); return []
        for s, v in self.ev(n['e'], st):
            ex = T('exc', strip_type(n['t']), v)
            self.emit(s, 'throw', strip_type(n['t']), None, (v,), n)
            self.raise_(s, ex)
        return []
    def raise_(self, st, ex): self.sinks[-1].append((st, ex))

    def e_icall(self, n, st):
        out = []
        for s, c in self.ev(n['c'], st):
            for s2, vs in self.evs(n['a'], s):
                if c.op == 'lam': out.extend(self.call_lambda(c, vs, s2)); continue
                if c.op == 'memfn' and c.a[1].op == 'fnref':
                    f = self.P.fns.get(c.a[1].a[1])
                    if f is not None and self.can_inline(f): out.extend(self.call_fn(f, c.a[0], vs, s2)); continue
                if c.op == 'fnref':
                    f = self.P.fns.get(c.a[1])
                    if f is not None and self.can_inline(f): out.extend(self.call_fn(f, THIS, vs, s2)); continue
                s2.n += 1
                v = T('ret', 'icall', s2.n)
                e = self.emit(s2, 'call', 'icall', c, vs, n, ret=v)
                self.throwing(s2, e)
                out.append((s2, v))
        return out

    def e_ctor(self, n, st):
        q = n['q']; a = n['a']; t = n['t']
        out = []
        if n.get('cp') and len(a) == 1:
            # copy or move construction: the value
            for s, v in self.ev(a[0], st): out.append((s, v))
            return out
        for s, vs in self.evs(a, st):
            base = q.rsplit('::', 1)[-1]
            if base in ('unique_ptr', 'shared_ptr', '__shared_ptr', 'basic_string_view', 'reference_wrapper', 'weak_ptr', 'exception_ptr', 'move_iterator', '_Rb_tree_const_iterator', '__normal_iterator', 'span') and len(vs) == 1:
                v = vs[0]
                if base == 'reference_wrapper': v = T('addr', v) if v.op not in ('deref',) else v.a[0]
            elif base in ('unique_ptr', 'shared_ptr', 'optional', 'weak_ptr', 'exception_ptr') and not vs: v = NULL
            elif base == 'optional': 
                v = vs[0] if (vs[0].op in ('null',) or is_opt_type(self.ntype(a[0]))) else T('some', vs[0])
            elif is_prop_type(t):
                if not vs: v = NONE
                elif len(vs) == 1: v = vs[0] if is_prop_type(self.ntype(a[0])) else T('some', vs[0])
                else: v = T('some', T('new', t, *vs))
            elif base == 'basic_string' and len(vs) >= 1 and not n.get('list'): v = vs[0] if vs[0].op in ('str', 'pc', 'fld', 'deref', 'par', 'var', 'ret') else T('new', base, *vs)
            elif base == 'basic_string' and not vs: v = T('str', '')
            elif base == 'basic_string': v = vs[0]
            elif base == 'pair' and len(vs) == 2: v = T('pair', *vs)
            else:
                # parameter-property structs and repository classes
                f = self.P.fns.get(n['f'])
                if f is not None and self.inline_ctor(f):
                    loc = T('tmp', t, s.n); s.n += 1
                    for s2, _ in self.call_fn(f, loc, vs, s): out.append((s2, loc))
                    continue
                if not n.get('ne') and not (n.get('dflt')) and not (q.startswith('std::') and self.may_throw is NOTHROW):
                    e = self.emit(s, 'ctor', q, None, vs, n, ret=None)
                    self.throwing(s, e)
                v = T('new', t, *vs)
            out.append((s, v))
        return out
    def inline_ctor(self, f): return False
    def ntype(self, n):
        """type of an expression node (best effort)"""
        if n is None: return ''
        if 't' in n and isinstance(n['t'], str): return n['t']
        if n.get('k') == 'cond': return self.ntype(n.get('a1')) or self.ntype(n.get('a2'))
        return ''

    def can_inline(self, f):
        if f is None or f.b is None: return False
        if len(self.stack) > self.depth: return False
        if any(x[0].u == f.u for x in self.stack if x[0] and not isinstance(x, LFrame)): return False
        if self.inline is not None:
            if not self.inline(f): return False
        elif f.q.startswith(TYPE_SYSTEM): return False
        return not self.opaque(f)

    def throwing(self, st, e):
        w = self.may_throw(e)
        if w:
            s2 = st.fork()
            if self.after_throw: self.after_throw(self, s2, e)
            self.raise_(s2, T('exc', w if isinstance(w, str) else '?', e.q, e.node.get('l') if e.node else None))

    # ---- calls
    def e_call(self, n, st):
        q = n['q']; name = q.rsplit('::', 1)[-1]; a = n['a']; op = n.get('op')
        if q in IDENT and len(a) >= 1:
            if q in ('std::ref', 'std::cref', 'std::addressof', 'std::__addressof'):
                return [(s, T('addr', l) if l.op != 'deref' else l.a[0]) for s, l in self.lv(a[0], st)]
            if q.endswith('_pointer_cast'): return self.ev(a[0], st)
            return self.ev(a[0], st)
        # short-circuit free: evaluate object then args
        objn = n.get('o')
        out = []
        if objn is not None:
            if n.get('ar') or objn['k'] == 'this':
                # pointer receiver
                pre = [(s, (self.deref(v) if v.op != 'this' else THIS)) for s, v in self.ev(objn, st)]
            else: pre = self.lv(objn, st)
        else: pre = [(st, None)]
        # arguments: reference parameters keep locations
        fnd = self.P.fns.get(n['f'])
        for s, o in pre:
            for s2, vs in self.eargs(n, fnd, a, s):
                out.extend(self.docall(n, q, name, op, o, vs, fnd, s2))
        return out

    def eargs(self, n, fnd, a, st):
        acc = [(st, [])]
        for i, x in enumerate(a):
            byref = False
            if fnd is not None and i < len(fnd.ps):
                pt = fnd.ps[i]['t']
                byref = pt.endswith('&')
            nx = []
            for s, vs in acc:
                if byref and x['k'] in ('ref', 'mem', 'un', 'idx', 'cast', 'call'):
                    for s2, l in self.lv(x, s): nx.append((s2, vs + [('L', l)]))
                else:
                    for s2, v in self.ev(x, s): nx.append((s2, vs + [('V', v)]))
            acc = nx
        return acc

    def docall(self, n, q, name, op, o, avs, fnd, st):
        vs = [v if k == 'V' else self.rd(st, v) for k, v in avs]
        objn = n.get('o')
        ot = self.ntype(objn) if objn is not None else ''
        ov = None
        h = self.hook(n, q, name, op, o, ot, vs, st)
        if h is not None: return h
        # ---- operators on values
        if op in ('==', '!=', '<', '>', '<=', '>=') and not self.force_inline(fnd):
            xs = ([self.rd(st, o)] if o is not None else []) + vs
            if len(xs) == 2:
                tys = ([ot] if o is not None else []) + [self.ntype(x) for x in n['a']]
                return [(st, self.cmp_typed(op, xs, tys))]
        if op == '!' : return [(st, self.mk_not(self.truthy(self.rd(st, o) if o is not None else vs[0])))]
        if op in ('*', '->') and o is not None and not vs:
            if self.rec_deref and (is_prop_type(ot) or is_opt_type(ot)):
                pv = self.rd(st, o)
                if pv.op != 'some': self.emit(st, 'pderef', q, pv, (), n)
            dv = self.deref(self.rd(st, o))
            return [(st, dv if op == '*' else (T('addr', dv) if dv.op != 'this' else dv))]
        if name == 'operator()cv' and o is not None:
            return [(st, self.rd(st, o))]
        if op == '[]' and o is not None:
            return [(st, self.mk_at(self.rd_keep(st, o), vs[0]))]
        if op == '=' and o is not None and not self.force_inline(fnd):
            return self.assign(n, q, o, ot, vs, st)
        if op in ('++', '--') and o is not None:
            old = self.rd(st, o); nv = T('next' if op == '++' else 'prev', old); self.write(st, o, nv)
            return [(st, old if vs else nv)]
        if op == ',' : return [(st, vs[-1])]
        if op == '()' and o is not None:
            c = self.rd(st, o)
            if c.op == 'lam': return self.call_lambda(c, [v if k == 'V' else (T('refto', v)) for k, v in avs], st)
        # ---- smart pointers / optional / property accessors
        if o is not None and not vs:
            v = None
            if name in ('get',) and any(x in ot for x in SMART): 
                ov = self.rd(st, o); v = ov if 'reference_wrapper' not in ot else self.deref(ov)
            elif name == 'value' and (is_opt_type(ot) or is_prop_type(ot)):
                pv = self.rd(st, o)
                if self.rec_deref and pv.op != 'some': self.emit(st, 'pderef', q, pv, (), n)
                v = self.deref(pv)
            elif name == 'isValid' and is_prop_type(ot): v = self.truthy(self.rd(st, o)); 
            elif name == 'has_value': v = self.truthy(self.rd(st, o))
            elif name in ('reset', 'destroy') and (any(x in ot for x in SMART) or is_prop_type(ot)):
                self.write(st, o, NULL); self.emit(st, 'set', self.fq(objn), o, (NULL,), n, extra=name); v = VOID
            if v is not None: return [(st, v)]
        if o is not None and is_prop_type(ot) and name in ('emplace', 'constructOrAssign', 'construct', 'assign', 'constructOrEmplace', 'emplaceOrAssign'):
            v = T('some', vs[0] if len(vs) == 1 else T('new', ot, *vs))
            self.write(st, o, v); self.emit(st, 'set', self.fq(objn), o, (v,), n, extra=name)
            return [(st, v.a[0])]
        if o is not None and is_opt_type(ot) and name == 'emplace':
            v = T('some', vs[0] if len(vs) == 1 else T('new', ot, *vs))
            self.write(st, o, v); self.emit(st, 'set', self.fq(objn), o, (v,), n, extra=name)
            return [(st, v.a[0])]
        if q in ('std::make_optional',): return [(st, T('some', vs[0]))]
        if q in ('std::begin', 'std::end', 'std::size', 'std::empty', 'std::data', 'std::cbegin', 'std::cend') and len(vs) == 1:
            return [(st, T('pc', name, vs[0], None))]
        if q in ('std::make_exception_ptr',): return [(st, T('eptr', vs[0]))]
        if q == 'std::current_exception': return [(st, T('eptr', st.exc[-1] if st.exc else NULL))]
        if q == 'std::rethrow_exception':
            self.emit(st, 'throw', 'rethrow_exception', None, vs, n)
            v = vs[0]
            if v.op == 'eptr' and isinstance(v.a[0], Term) and v.a[0].op == 'exc': ex = v.a[0]
            elif v.op == 'eptr' and isinstance(v.a[0], Term) and v.a[0].op == 'new': ex = T('exc', v.a[0].a[0], v.a[0])
            else: ex = T('exc', '?', v)
            self.raise_(st, ex); return []
        if q == 'std::exchange' and len(avs) == 2:
            k, l = avs[0]
            if k == 'V':
                r = self.lv(n['a'][0], st)
                l = r[0][1]
            old = self.rd(st, l); self.write(st, l, vs[1]); self.emit(st, 'set', self.fq(n['a'][0]), l, (vs[1],), n, extra='exchange')
            return [(st, old)]
        if name == 'swap' and q.startswith('std::'):
            ls = ([o] if o is not None else []) + [v if k == 'L' else self.lv(a, st)[0][1] if v.op in ('var', 'fld', 'tmp', 'deref', 'glob', 'at', 'elem') else v for (k, v), a in zip(avs, n['a'])]
            if len(ls) == 2 and all(isinstance(x, Term) and x.op in ('var', 'fld', 'tmp', 'deref', 'glob', 'at', 'elem') for x in ls):
                a, b = ls; va, vb = self.rd(st, a), self.rd(st, b)
                for l, v in ((a, vb), (b, va)): self.write(st, l, v); self.emit(st, 'set', q, l, (v,), n, extra='swap')
                return [(st, VOID)]
        # std algorithms with lambdas
        if q.startswith('std::') and vs and vs[-1].op == 'lam':
            r = self.algo(n, q, name, vs, st)
            if r is not None: return r
        if q == 'std::invoke' and vs:
            c = vs[0]
            if c.op == 'lam': return self.call_lambda(c, vs[1:], st)
        # ---- devirtualisation on this
        if fnd is None or n.get('virt'):
            f2 = self.devirt(n, o)
            if f2 is not None: fnd = f2
        # ---- inlining
        if fnd is not None and not (n.get('virt') and not n.get('qual') and self.ambiguous_virtual(n, o)) and self.can_inline(fnd):
            args = []
            for (k, v), p in zip(avs, fnd.ps):
                if k == 'L' and (v.op in ('var', 'fld', 'tmp', 'deref', 'glob', 'at', 'elem')): args.append(T('refto', v))
                else: args.append(v)
            this = o if o is not None else THIS
            return self.call_fn(fnd, this, args, st)
        # ---- opaque
        rdo = self.rd_keep(st, o) if o is not None else None
        pure = (n.get('cm') and not n.get('mr') and not n['t'] == 'void') or (name in PURE_NAMES and (q.startswith('std::') or q.startswith('boost::') or name in ('find', 'get', 'begin', 'end')))
        if o is None and not n.get('nr') and self.pure_free(q, name, n): pure = True
        if pure and name == 'at' and len(vs) == 1 and vs[0].op == 'idx' and rdo is vs[0].a[0]: return [(st, T('elem', *vs[0].a))]
        if pure:
            ta = (T('targ', *map(str, n['ta'])),) if n.get('ta') and name == 'as' else ()     # as<A>() is not as<B>()
            v = T('pc', q, rdo, *vs, *ta, st.ver.get(o, 0) or None)
            if n['t'] == 'bool': v = self.truthy(v)
            if self.rec_pure or self.may_throw is not NOTHROW:
                keep = st.tr
                e = self.emit(st, 'pure', q, rdo, vs, n, ret=v)
                self.throwing(st, e)
                if not (self.rec_pure and self.rec_pure(e)): st.tr = keep
            return [(st, v)]
        st.n += 1
        v = T('ret', q, st.n)
        e = self.emit(st, 'call', q, rdo, vs, n, ret=v, extra=[l if k == 'L' else None for k, l in avs])
        if n.get('nr'):
            self.raise_(st, T('exc', '?', e.q)); return []
        self.throwing(st, e)
        if self.after: self.after(self, st, e)
        # mutation of the receiver / reference arguments
        setop = name in ('operator+=', 'operator-=', 'operator^=') and q.startswith('dots::type::PropertySet::') and len(vs) == 1
        if setop and o is not None and (self.local_root(o) or self.opt_lv(n, st) is not None):
            v2 = T('pc', q[:-1], self.rd(st, o), vs[0], None); l = self.opt_lv(n, st)
            if l is not None: self.write(st, l, T('some', v2))
            else: self.write(st, o, v2)
        elif o is not None and o.op == 'var' and not n.get('cm') and strip_type(ot).startswith(('std::', 'dots::type::PropertySet')) and not any(x in strip_type(ot).split('<', 1)[0] + '<' for x in SMART):
            self.write(st, o, T('mut', name, self.rd(st, o), *vs))
        if o is not None and not n.get('cm'):
            d = dict(st.ver); d[o] = d.get(o, 0) + 1; st.ver = d
        return [(st, v)]

    # ---- vocabulary of the repository's type system
    def is_type(self, o, ty): return T('==', T('dyntype', o), T('enum', ty))
    def hook(self, n, q, name, op, o, ot, vs, st):
        if name == 'operator()' and o is not None and (q.startswith('dots::tools::') and 'Handler' in q or q.startswith('std::function::')):
            c = self.rd(st, o)
            while c.op == 'some' or c.op == 'new' and len(c.a) == 2: c = c.a[-1]
            if c.op == 'lam': return self.call_lambda(c, vs, st)
            st.n += 1
            v = T('ret', q, st.n)
            e = self.emit(st, 'invoke', 'invoke', self.rd_keep(st, o), vs, n, ret=v)
            self.throwing(st, e)
            if self.after: self.after(self, st, e)
            return [(st, v)]
        if name == 'value_or' and o is not None and is_opt_type(ot) and vs:
            p = self.rd(st, o)
            return [(s, self.deref(p) if b else vs[0]) for s, b in self.branch(st, self.truthy(p))]
        if not q.startswith('dots::'): return None
        if name == '_Descriptor' and n.get('ct'):
            m = re.match(r'dots::type::StaticStruct<(.*)>$', n['ct'])
            return [(st, T('enum', 'descof ' + (m.group(1) if m else n['ct'])))]
        if o is None: return None
        if name in ('as', 'is', 'to') and q.startswith('dots::type::AnyStruct::'): name = '_' + name
        if name in ('_is', '_isAny', '_as', '_to') and n.get('ta'):
            so = self.rd(st, o) if o.op == 'var' else o
            if so.op in ('refto',): so = so.a[0]
            out = []; rest = [st]
            for ty in n['ta']:
                nrest = []
                for r in rest:
                    for s, b in self.branch(r, self.is_type(so, ty)):
                        if not b: nrest.append(s)
                        elif name == '_as': out.append((s, T('addr', so)))
                        elif name == '_to': out.append((s, so))
                        else: out.append((s, TRUE))
                rest = nrest
            for r in rest:
                if name == '_to': self.raise_(r, T('exc', 'std::logic_error', NULL))
                else: out.append((r, NULL if name == '_as' else FALSE))
            return out
        if name == 'valueOrDefault' and is_prop_type(ot) and vs:
            p = self.rd(st, o)
            return [(s, self.deref(p) if b else vs[0]) for s, b in self.branch(st, self.truthy(p))]
        return None
    def opt_lv(self, n, st):
        """location of the local optional whose value the receiver of call n is (written as *x or x.value())"""
        r = n.get('o') or {}
        if r.get('k') == 'call' and (r.get('op') in ('*', '->') or r.get('q') == 'std::optional::value') and is_opt_type(r.get('ct') or '') and (r.get('o') or {}).get('k') == 'ref':
            l = self.lv(r['o'], st)
            if len(l) == 1 and self.local_root(l[0][1]): return l[0][1]
        return None
    def local_root(self, o):
        while o.op in ('deref', 'fld'): o = o.a[0]
        return o.op in ('var', 'par', 'tmp')
    def rd_keep(self, st, o):
        v = self.rd(st, o)
        return v
    def force_inline(self, f): return False
    def pure_free(self, q, name, n):
        return q.startswith('std::to_string') or q.startswith('dots::to_string') or q in ('std::min', 'std::max', 'std::distance', 'std::next', 'std::prev', 'std::get', 'std::get_if', 'std::holds_alternative', 'std::tie', 'std::find', 'std::operator+', 'std::make_pair', 'std::make_tuple') \
            or name in ('_Descriptor',) or name.startswith('_p') and False
    def ambiguous_virtual(self, n, o): 
        return not (self.this_cls and o is THIS)
    def devirt(self, n, o):
        if not (n.get('virt') and self.this_cls and o is THIS) or n.get('qual'): return None
        u = n['f']
        best = None
        cands = [u] + self.all_overriders(u)
        chain = [self.this_cls]
        # walk up from the dynamic class
        def up(cls):
            yield cls
            for r in self.P.records_q.get(cls, []):
                for b in r.get('basesq', []): yield from up(b)
        exact = self.this_cls in self.P.records and self.this_cls not in self.P.records_q
        if exact:
            def up(cls):
                yield cls
                for b in self.P.records.get(cls, {}).get('bases', []): yield from up(b)
        for c in up(self.this_cls):
            for cu in cands:
                f = self.P.fns.get(cu)
                if f is not None and (f.cls if exact else f.clsq) == c: return f
        return None
    def all_overriders(self, u):
        r = []
        for o in self.P.overriders.get(u, []): r.append(o); r.extend(self.all_overriders(o))
        return r

    def cmp_typed(self, op, xs, tys):
        po = lambda t: bool(t) and (is_prop_type(t) or is_opt_type(t))
        p0, p1 = po(tys[0]), po(tys[1] if len(tys) > 1 else None)
        if op in ('==', '!=') and (p0 != p1) and not any(x.op in ('null', 'nullopt') for x, p in ((xs[0], p0), (xs[1], p1)) if not p):
            p, v = (xs[0], xs[1]) if p0 else (xs[1], xs[0])
            if p.op == 'some': t = self.mk_eq(p.a[0], v)
            elif p.op in ('none', 'null'): t = FALSE
            else: t = T('peq', p, v)
            return t if op == '==' else self.mk_not(t)
        return self.binop(op, xs[0], xs[1])

    def assign(self, n, q, o, ot, vs, st):
        v = vs[0]
        at = self.ntype(n['a'][0])
        if (is_prop_type(ot) and not is_prop_type(at)) or (is_opt_type(ot) and not is_opt_type(at) and v.op not in ('null', 'some')):
            v = T('some', v)
        self.write(st, o, v)
        e = None
        if o.op != 'var': e = self.emit(st, 'set', self.fq(n['o']), o, (v,), n)
        if e is not None: self.throwing(st, e)
        return [(st, v)]

    def rangeof(self, b, e):
        if self.isname(b, 'begin') and self.isname(e, 'end') and b.a[1] is e.a[1]: return b.a[1]
        return T('range', b, e)

    def algo(self, n, q, name, vs, st):
        lam = vs[-1]
        if name in ('for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'remove_if', 'transform') and len(vs) >= 3 or name in ('erase_if',) and len(vs) == 2:
            rng = self.rangeof(vs[0], vs[1]) if len(vs) >= 3 else vs[0]
            self.loopn += 1
            el = T('elem', rng, n['l'])
            s0 = st.fork()
            res = []
            empty = {'for_each': VOID, 'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE, 'find_if': vs[1], 'find_if_not': vs[1]}
            def final(s, hit):
                if name == 'for_each' or name == 'transform': return VOID
                if name == 'any_of': return C(hit)
                if name == 'all_of': return C(hit)
                if name == 'none_of': return C(not hit)
                if name in ('find_if',): return T('iter', rng, n['l']) if hit else vs[1]
                if name in ('find_if_not',): return vs[1] if hit else T('iter', rng, n['l'])
                return T('ret', q, s.n)
            self.assume(s0, T('empty', rng), True)
            if name in empty: res.append((s0, empty[name]))
            else:
                res.append((s0, T('ret', q, s0.n)))
            st.loops = st.loops + (el,)
            for s, v in self.call_lambda(lam, [el], st):
                s.loops = s.loops[:-1]
                if name in ('for_each', 'transform'): res.append((s, VOID)); continue
                for s2, b in self.branch(s, self.truthy(v)):
                    if name == 'erase_if' and b:
                        self.emit(s2, 'call', 'std::erase_if', vs[0], (el,), n)
                    res.append((s2, final(s2, b)))
            return res
        return None

    # ------------------------------------------------------------ statements: [(st, flow)]
    def ex(self, n, st):
        if n is None: return [(st, None)]
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m is not None: r = m(n, st)
        else: r = [(s, None) for s, v in self.ev(n, st)]
        if len(r) > 60: r = self.dedupe(r)
        if len(r) > self.max: raise Limit('too many states at line %s of %s' % (n.get('l'), self.curfn().q if self.curfn() else '?'))
        return r
    def dedupe(self, r):
        seen = set(); out = []
        for s, f in r:
            k = (s.key(), f)
            if k in seen: continue
            seen.add(k); out.append((s, f))
        return out

    def s_blk(self, n, st):
        cur = [(st, None)]; done = []
        dt = self.dtor_locals(n)
        if dt: self.sinks.append([])
        for x in n['s']:
            nx = []
            for s, f in cur:
                for s2, f2 in self.ex(x, s):
                    (nx if f2 is None else done).append((s2, f2))
            cur = nx
            if not cur: break
        r = cur + done
        if dt:
            thrown = self.sinks.pop()
            out = []
            for s, f in r: out.extend((s2, f) for s2 in self.run_dtors(dt, s))
            for s, ex in thrown:
                for s2 in self.run_dtors(dt, s): self.raise_(s2, ex)
            r = out
        return r
    def dtor_locals(self, n):
        ck = '_dt%d' % bool(self.rec_scope)
        r = n.get(ck)
        if r is None:
            r = []
            for x in n['s']:
                if x and x['k'] == 'decl':
                    for v in x['v']:
                        if v.get('ref') or v.get('st'): continue
                        if self.holder(v): r.append((v, None)); continue
                        d = self.user_dtor(v.get('t') or '')
                        if d is not None: r.append((v, d))
            r.reverse()
            n[ck] = r
        return r
    def holder(self, v):
        return self.rec_scope and not v.get('ref') and not v.get('st') and 'd' in v and re.match(r'(const )?std::(shared_ptr|unique_ptr)<', v.get('t') or '')
    def user_dtor(self, t):
        t = strip_type(t)
        rec = self.P.records.get(t)
        if not rec: return None
        for m in rec['methods']:
            if m['n'].startswith('~'):
                f = self.P.fns.get(m['f'])
                if f is not None and not f.imp and not f.dflt and f.b and f.b.get('s'): return f
        return None
    def run_dtors(self, dt, st):
        states = [st]
        for v, f in dt:
            nx = []
            for s in states:
                if f is None:
                    if v['d'] in s.env: self.emit(s, 'drop', v['n'] or '', T('var', v['d'], v['n'] or ''), (s.env[v['d']],), v)
                    nx.append(s); continue
                if v['d'] not in s.env or not self.can_inline(f): nx.append(s); continue
                for s2, _ in self.call_fn(f, T('var', v['d'], v['n']), [], s): nx.append(s2)
            states = nx
        return states

    def s_decl(self, n, st):
        cur = [st]
        for v in n['v']:
            nx = []
            for s in cur: nx.extend(self.declvar(v, s))
            cur = nx
        return [(s, None) for s in cur]

    def declvar(self, v, st):
        out = []
        if 'binds' in v:
            # structured binding
            init = v.get('init')
            isref = v['t'].endswith('&')
            for s, val in (self.lv(init, st) if isref else self.ev(init, st)):
                base = val if isref else self.snap(s, v, val)
                names = self.bindnames(v, base)
                for b, nm in zip(v['binds'], names):
                    if isinstance(nm, tuple): s.env[b['d']] = nm[1] if not isref else T('refto', nm[1])
                    else:
                        loc = T('fld', base, nm)
                        s.env[b['d']] = T('refto', loc)
                out.append(s)
            return out
        if 'init' not in v:
            st.env[v['d']] = T('uninit', v['d'])
            return [st]
        init = v['init']
        if v.get('ref'):
            for s, l in self.lv(init, st):
                if l.op in ('var', 'fld', 'deref', 'at', 'glob', 'tmp', 'this', 'elem', 'pc', 'ret', 'each'): s.env[v['d']] = T('refto', l)
                else: s.env[v['d']] = l
                out.append(s)
            return out
        if v.get('st'):
            # static local: initialised once, value unknown
            st.env[v['d']] = T('glob', 'static ' + v['n'])
            return [st]
        for s, val in self.ev(init, st):
            t = v['t']
            if val.op == 'tmp':
                # move overrides to the variable
                for l, x in list(s.heap.items()):
                    if l.op == 'fld' and l.a[0] is val: s.heap[T('fld', T('var', v['d'], v['n']), l.a[1])] = x
            s.env[v['d']] = val
            if self.holder(v): self.emit(s, 'hold', v['n'] or '', T('var', v['d'], v['n'] or ''), (val,), v)
            out.append(s)
        return out
    def snap(self, s, v, val):
        loc = T('var', v['d'], v['n'] or 'sb'); s.env[v['d']] = val
        return loc
    def bindnames(self, v, base):
        r = []
        for i, b in enumerate(v['binds']):
            e = b.get('init')
            if e and e['k'] == 'mem': r.append(e['n'])
            else:
                t = strip_type(v['t'])
                if t.startswith('std::pair<'): r.append(('first', 'second')[i])
                else: r.append('<%d>' % i)
        return r

    LOGCOND = 'shouldLog'
    def is_log(self, n):
        c = n.get('c')
        return bool(c) and c['k'] == 'call' and c['q'].endswith('::shouldLog')

    def s_if(self, n, st):
        if self.is_log(n) and not self.keep_log: return [(st, None)]
        states = [(st, None)]
        if 'init' in n: states = self.ex(n['init'], st)
        out = []
        for s, _ in states:
            ss = self.declvar(n['var'], s) if 'var' in n else [s]
            for s1 in ss:
                if n.get('cx') and 'cv' in n:
                    out.extend(self.ex(n['th'] if n['cv'] else n.get('el'), s1)); continue
                for s2, c in self.ev(n['c'], s1):
                    for s3, b in self.branch(s2, self.truthy(c)):
                        out.extend(self.ex(n['th'] if b else n.get('el'), s3))
        if self.rec_scope:
            hs = [v for v in ((n['init'].get('v', []) if 'init' in n and n['init'].get('k') == 'decl' else []) + ([n['var']] if 'var' in n else [])) if self.holder(v)]
            for v in hs:
                for s, f in out:
                    if v['d'] in s.env: self.emit(s, 'drop', v['n'] or '', T('var', v['d'], v['n'] or ''), (s.env[v['d']],), v)
        return out

    def assigned(self, n, acc=None):
        """declarations assigned (or incremented) in a subtree, not inside nested lambdas"""
        acc = set() if acc is None else acc
        if isinstance(n, list):
            for x in n: self.assigned(x, acc)
        elif isinstance(n, dict):
            k = n.get('k')
            if k == 'asg' and n['l1'] and n['l1']['k'] == 'ref' and 'd' in n['l1']: acc.add(n['l1']['d'])
            if k == 'un' and n['op'] in ('++', '--', 'p++', 'p--') and n['e']['k'] == 'ref' and 'd' in n['e']: acc.add(n['e']['d'])
            if k == 'call' and n.get('op') in ('++', '--', '+=', '-=', '=') and n.get('o') and n['o']['k'] == 'ref' and 'd' in n['o']: acc.add(n['o']['d'])
            for x in n.values():
                if isinstance(x, (dict, list)): self.assigned(x, acc)
        return acc
    def counters(self, n):
        """variables driving the loop: those stepped in the increment, or stepped in the body and used in the condition"""
        inc = self.assigned(n.get('inc'))
        used = set()
        def refs(x):
            if isinstance(x, list): [refs(y) for y in x]
            elif isinstance(x, dict):
                if x.get('k') == 'ref' and 'd' in x: used.add(x['d'])
                for y in x.values():
                    if isinstance(y, (dict, list)): refs(y)
        refs(n.get('c'))
        return inc | (self.assigned(n['b']) & used)

    def havoc(self, st, ds, n):
        for d in ds:
            v = st.env.get(d)
            if v is None: continue
            while v.op in ('next', 'prev'): v = v.a[0]
            if self.isname(v, 'begin'): st.env[d] = T('iter', v.a[1], n['l'])
            elif v.op == 'iter': pass
            elif v.op in ('refto',): pass
            else: st.env[d] = T('loopvar', d, n['l'])
    def s_for(self, n, st):
        states = self.ex(n['init'], st) if 'init' in n else [(st, None)]
        out = []
        for s, _ in states:
            r = self.canon_for(n, s)
            out.extend(self.loop(n, s, n.get('c'), n['b'], n.get('inc')) if r is None else r)
        return out
    def canon_for(self, n, st):
        """loops that visit every element of a container with an iterator or an index are treated like range-based ones"""
        inc = n.get('inc'); c = n.get('c')
        if not inc or not c or inc.get('op') not in ('++', 'p++'): return None
        ds = self.assigned(inc)
        if len(ds) != 1: return None
        d = next(iter(ds))
        if d in self.assigned(n['b']): return None
        v0 = st.env.get(d)
        if v0 is None: return None
        f = st.fork()
        idx = None
        if v0.op == 'int' and v0.a[0] == '0': idx = T('idx?', n['l']); f.env[d] = idx
        elif not (self.isname(v0, 'begin')): return None
        k = len(f.tr)
        r = self.ev(c, f)
        if len(r) != 1 or len(r[0][0].tr) != k: return None
        cv = self.truthy(r[0][1])
        if idx is None:
            rv = v0.a[1]
            if cv is not self.mk_not(T('empty', rv)): return None
            val = T('addr', T('elem', rv, n['l']))
        else:
            lim = None
            for x in walk(cv):
                if x.op == 'pc' and (self.isname(x, 'size') or self.isname(x, 'length')): lim = x
            if lim is None or cv is not self.mk_lt(idx, lim) and cv is not self.mk_not(self.mk_eq(idx, lim)): return None
            rv = lim.a[1]; val = T('idx', rv, n['l'])
        el = T('elem', rv, n['l'])
        out = []
        z = st.fork()
        if self.assume(z, T('empty', rv), True): out.append((z, None))
        if not self.assume(st, T('empty', rv), False): return out
        st.env[d] = val
        st.loops = st.loops + (el,)
        for s2, fl in self.ex(n['b'], st):
            s2.loops = s2.loops[:-1]
            self.loopexit(s2, fl, el, n)
            out.append((s2, None if fl in ('brk', 'cont') else fl))
        return out
    def s_while(self, n, st): return self.loop(n, st, n['c'], n['b'], None, var=n.get('var'))
    def s_do(self, n, st): return self.loop(n, st, n['c'], n['b'], None, post=True)

    unroll_const = False
    def concrete(self, n, st, cond, body, inc):
        """executes a loop whose condition is decided by constants in every iteration; None if it is not"""
        out = []; k = len(self.sinks[-1]) if self.sinks else 0; cur = [st.fork()]
        def bail():
            if self.sinks: del self.sinks[-1][k:]
        for it in range(66):
            go = []
            for s in cur:
                m = len(s.tr); r = self.ev(cond, s)
                if len(r) != 1: bail(); return None
                c = self.truthy(r[0][1])
                if c is TRUE: go.append(r[0][0])
                elif c is FALSE: out.append((r[0][0], None))
                else: bail(); return None
            if not go: return out
            if len(go) > 40: bail(); return None
            cur = []
            for s in go:
                for s2, f in self.ex(body, s):
                    if f == 'brk': out.append((s2, None)); continue
                    if isinstance(f, tuple): out.append((s2, f)); continue
                    cur += [x for x, _ in self.ev(inc, s2)] if inc else [s2]
        bail(); return None
    def loop(self, n, st, cond, body, inc, var=None, post=False):
        out = []
        if self.unroll_const and cond is not None and not post and not var:
            r = self.concrete(n, st, cond, body, inc)
            if r is not None: return r
        cnt = self.counters(n)
        def test(s):
            """[(state, bool)]"""
            r = []
            ss = self.declvar(var, s) if var else [s]
            for s1 in ss:
                if cond is None: r.append((s1, True)); continue
                for s2, c in self.ev(cond, s1): r.extend(self.branch(s2, self.truthy(c)))
            return r
        if not post:
            z = st.fork()
            for s, b in test(z):
                if not b: out.append((s, None))
        g = st.fork()
        self.havoc(g, cnt, n)
        lid = T('loop', n['l'])
        entry = [(g, True)] if post else test(g)
        for s, b in entry:
            if not b:
                continue
            s.loops = s.loops + (lid,)
            for s2, f in self.ex(body, s):
                s2.loops = s2.loops[:-1]
                self.loopexit(s2, f, lid, n)
                if f == 'brk': out.append((s2, None)); continue
                if isinstance(f, tuple): out.append((s2, f)); continue
                ss = [x for x, _ in self.ev(inc, s2)] if inc else [s2]
                for s3 in ss:
                    if cond is None: continue      # endless loop: leaves only by break/return/throw
                    if post:
                        for s4, b4 in test(s3):
                            if not b4: out.append((s4, None))
                            else:
                                # further iterations are represented by the generic one
                                pass
                    else:
                        self.havoc(s3, cnt, n)
                        f0 = s3.facts
                        for s4, b4 in test(self.weaken(s3, cnt, n)):
                            if not b4: out.append((s4, None))
                        if cond['k'] == 'bool': pass
        return out
    def weaken(self, st, cnt, n):
        # facts about the loop variables of the generic iteration do not hold for the exit test
        names = set()
        for d in cnt:
            v = st.env.get(d)
            if v is not None: names.add(v)
        if names:
            st.facts = {a: v for a, v in st.facts.items() if not any(mentions(a, lambda x: x is nm) for nm in names)}
        else:
            st.facts = dict(st.facts)
        # conditions re-evaluated from scratch are treated as unknown again
        return st

    def s_rfor(self, n, st):
        out = []
        states = self.ex(n['init'], st) if 'init' in n else [(st, None)]
        for s0, _ in states:
            for s, rng in self.lv(n['r'], s0):
                rv = self.rd(s, rng)
                if rv.op == 'list' and 0 < len(rv.a) <= 8 and n['r'].get('k') == 'init' and 'binds' not in n['v']:
                    # the elements are written down: one pass for each
                    cur = [s]
                    for el in rv.a:
                        nxt = []
                        for s1 in cur:
                            s1.env[n['v']['d']] = el
                            for s2, f in self.ex(n['b'], s1):
                                if f in (None, 'cont'): nxt.append(s2)
                                else: out.append((s2, None if f == 'brk' else f))
                        cur = nxt
                    out.extend((s1, None) for s1 in cur)
                    continue
                z = s.fork()
                if self.assume(z, T('empty', rv), True): out.append((z, None))
                if not self.assume(s, T('empty', rv), False): continue
                el = T('elem', rv, n['l'])
                v = n['v']
                if 'binds' in v:
                    base = el
                    for i, b in enumerate(v['binds']):
                        s.env[b['d']] = T('refto', T('fld', base, self.bindnames(v, base)[i]))
                elif v.get('ref'): s.env[v['d']] = T('refto', el)
                else: s.env[v['d']] = el
                s.loops = s.loops + (el,)
                for s2, f in self.ex(n['b'], s):
                    s2.loops = s2.loops[:-1]
                    self.loopexit(s2, f, el, n)
                    if f in ('brk', 'cont'): f = None
                    out.append((s2, f))
        return out
    def loopexit(self, s, f, lid, n):
        """marks how the generic iteration ended: break, return, or next (the loop goes on)"""
        if self.rec_loop: self.emit(s, 'loopexit', 'break' if f == 'brk' else 'return' if isinstance(f, tuple) else 'next', lid, (), n)

    def s_switch(self, n, st):
        out = []
        states = self.ex(n['init'], st) if 'init' in n else [(st, None)]
        for s0, _ in states:
            ss = self.declvar(n['var'], s0) if 'var' in n else [s0]
            for s1 in ss:
                for s, c in self.ev(n['c'], s1):
                    cases = n['cs']
                    has_default = any(l['k'] == 'default' for x in cases for l in x['lb'])
                    rest = [s]
                    entries = []
                    for i, x in enumerate(cases):
                        for l in x['lb']:
                            if l['k'] == 'default': continue
                            nrest = []
                            for r in rest:
                                lvv = self.ev(l, r)
                                for r2, lvl in lvv:
                                    for r3, b in self.branch(r2, self.mk_eq(c, lvl)):
                                        if b: entries.append((r3, i))
                                        else: nrest.append(r3)
                            rest = nrest
                    if has_default:
                        di = [i for i, x in enumerate(cases) if any(l['k'] == 'default' for l in x['lb'])][0]
                        entries += [(r, di) for r in rest]
                    else: out += [(r, None) for r in rest]
                    for e, i in entries:
                        cur = [(e, None)]
                        for x in cases[i:]:
                            nx = []
                            for s2, f in cur:
                                seq = [(s2, None)]
                                for stn in x['s']:
                                    nseq = []
                                    for s3, f3 in seq:
                                        if f3 is not None: nseq.append((s3, f3)); continue
                                        nseq.extend(self.ex(stn, s3))
                                    seq = nseq
                                for s3, f3 in seq:
                                    if f3 is None: nx.append((s3, None))
                                    elif f3 == 'brk': out.append((s3, None))
                                    else: out.append((s3, f3))
                            cur = nx
                            if not cur: break
                        out += cur
        return out

    def s_ret(self, n, st):
        if 'e' not in n: return [(st, ('ret', None))]
        fn = self.curfn()
        return [(s, ('ret', v)) for s, v in self.ev(n['e'], st)]
    def s_brk(self, n, st): return [(st, 'brk')]
    def s_cont(self, n, st): return [(st, 'cont')]
    def s_nop(self, n, st): return [(st, None)]
    def s_unkstmt(self, n, st): return [(st, None)]

    def excmatch(self, ext, ht):
        """True / False / None (unknown) whether an exception of type ext is caught by a handler for ht (None: catch-all)"""
        if ht is None: return True
        if ext == '?': return None
        h = strip_type(ht); t = strip_type(ext)
        seen = set(); todo = [t]
        while todo:
            x = todo.pop()
            if x == h: return True
            if x in seen: continue
            seen.add(x)
            if x in STDEXC:
                if STDEXC[x]: todo.append(STDEXC[x])
                continue
            r = self.P.records.get(x)
            if r: todo.extend(r['bases'])
            elif 'exception' in x or 'error' in x.lower(): todo.append('std::exception')
        return False

    def s_try(self, n, st):
        self.sinks.append([])
        outer, oloops = st.trys, st.loops
        st.trys = st.trys + (tuple((h.get('t') or '...') for h in n['h']),)
        normal = self.ex(n['b'], st)
        thrown = self.sinks.pop()
        out = []
        for s, f in normal:
            s.trys = s.trys[:-1]; out.append((s, f))
        for s, ex in thrown:
            s.trys = outer; s.loops = oloops
            remaining = True
            for h in n['h']:
                m = self.excmatch(ex.a[0], h.get('t'))
                if m is False: continue
                s2 = s.fork() if m is None else s
                s2.exc = s2.exc + (ex,)
                if 'v' in h: s2.env[h['v']['d']] = T('caught', ex)
                self.emit(s2, 'catch', h.get('t') or '...', None, (ex,), h)
                for s3, f in self.ex(h['b'], s2):
                    s3.exc = s3.exc[:-1]
                    out.append((s3, f))
                if m: remaining = False; break
            if remaining: self.raise_(s, ex)
        return out
