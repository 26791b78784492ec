import os, sys
from vf import program
from vf.program import AnalysisBroken, rel, HERE
from vf.engine import *

def load(ctx, units, extra=(), **kw):
    P = program.load(units, extra_sources=[os.path.join(HERE, 'analyzer', e) for e in extra], **kw)
    ctx.units = list(ctx.units or []) + list(P.units)
    return P
def at(f, n=None): return '%s:%s' % (rel(f.file), (n or {}).get('l', f.line))
def fct(p, t): return p.facts.get(t)
def is_fld(t, name): return isinstance(t, Term) and t.op == 'fld' and t.a[1] == name
def under_this(t, name): return is_fld(t, name) and t.a[0] is THIS
def pathstr(p, n=14):
    s = 'path: [%s]' % p.describe()
    ev = ['%s %s @%s' % (e.k, e.q.rsplit('::', 1)[-1] if e.k != 'set' else show(e.o) + ' = ' + show(e.a[0])[:60], e.loc()) for e in p.tr if e.k not in ('pure', 'pderef')]
    return s[:700] + ' effects: ' + ' -> '.join(ev[:n]) + (' ...' if len(ev) > n else '') + ' exit: %s %s' % (p.how, show(p.val)[:80])
def nodes(n):
    """all dict nodes of a body"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, list): st.extend(x)
        elif isinstance(x, dict):
            if 'k' in x: yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
def fields_of_type(P, clsq, sub):
    return [f['n'] for r in P.records_q.get(clsq, []) for f in r['fields'] if sub in f['t']]
def one_field(P, clsq, sub):
    r = sorted(set(fields_of_type(P, clsq, sub)))
    if len(r) != 1: raise AnalysisBroken('expected one field of type %s in %s, found %s' % (sub, clsq, r))
    return r[0]
def sfield(t, name):
    """value of a field of a struct literal term (None when t is not a literal)"""
    if t.op == 'upd':
        for n, v in t.a[1]:
            if n == name: return v
        return sfield(t.a[0], name)
    if t.op == 'struct':
        for n, v in t.a[1]:
            if n == name: return v
        return NONE
    if t.op == 'new' and len(t.a) == 1: return NONE
    return None
def struct_type(t):
    while t.op == 'upd': t = t.a[0]
    return str(t.a[0]).rsplit('::', 1)[-1] if t.op in ('struct', 'new') else None

def foreign(P, *classes, also=()):
    """predicate: functions that are not part of the implementation of the given classes (other classes' members, or functions defined in other files)"""
    files = {f.file for f in P.fns.values() if f.clsq in classes and f.b is not None}
    names = set(also)
    def op(f):
        if f.q in names: return True
        if f.is_lambda or f.clsq in classes: return False
        return f.file not in files
    return op
def known_true(v, facts):
    """is a stored boolean value known to be true under the facts of a path"""
    if v is TRUE: return True
    if v is None or v is FALSE: return False
    if v.op in ('!', 'not') and len(v.a) == 1: return facts.get(v.a[0]) is False
    return facts.get(v) is True
def known_false(v, facts):
    if v is FALSE: return True
    if v is None or v is TRUE: return False
    if v.op in ('!', 'not') and len(v.a) == 1: return facts.get(v.a[0]) is True
    return facts.get(v) is False
