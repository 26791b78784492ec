"""Shared helpers about the authentication manager."""
from .common import *
A = 'dots::io::AuthManager'
L = 'dots::io::LegacyAuthManager'
UNIT = 'lib/src/io/auth/LegacyAuthManager.cpp'

def pcname(a): return a.a[0].rsplit('::', 1)[-1] if a.op == 'pc' else None
def fact_pc(p, name, val):
    return [a for a, v in p.facts.items() if a.op in ('pc',) and pcname(a) == name and v is val]
def ret_fact(p, name, val):
    """call results (non-const functions) known to be val on the path"""
    return [a for a, v in p.facts.items() if a.op in ('ret', 'pc') and a.a[0].rsplit('::', 1)[-1] == name and v is val]
def digests(t): return [x for x in walk(t) if x.op == 'new' and isinstance(x.a[0], str) and x.a[0].endswith('io::Digest')]
def is_deref_fld(t, base, name):
    return t.op == 'deref' and is_fld(t.a[0], name) and (base is None or t.a[0].a[0] is base)
def has(t, base, name): return mentions(t, lambda x: is_fld(x, name) and (base is None or x.a[0] is base))
