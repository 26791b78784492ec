from .numeric import *
from vf.num import *
RULES = {'narrow': 'a number of the input is only converted to a type it is known to fit', 'alloc': 'the memory that is allocated for what the input claims is bounded by the size of the input that is there',
         'terminate': 'in every iteration of a loop of a reader something progresses strictly towards a bound', 'recursion': 'the depth of the calls of a reader does not depend on the input'}
def check(ctx, tier):
    for k, t in RULES.items(): ctx.rule(k, t)
    P, rd = decide(ctx, 'C22', ('reader', 'serializer', 'json', 'stream'))
    # cycles in the call graph of the readers
    ms = {f.u: f for f in P.fns.values() if f.b is not None and (f.clsq in rd or f.clsq == 'dots::serialization::Reader')}
    g = {u: {n['f'] for n in nodes(f.b) if n['k'] == 'call' and n.get('f') in ms} for u, f in ms.items()}
    def reach(u):
        seen = set(); st = list(g[u])
        while st:
            x = st.pop()
            if x not in seen: seen.add(x); st.extend(g[x])
        return seen
    for u, f in sorted(ms.items(), key=lambda x: (x[1].q, x[1].line)):
        bad = u in reach(u)
        ctx.ob('recursion', f.short(), not bad, at(f), 'the reader calls itself: %s' % ', '.join(sorted({ms[x].q.rsplit('::', 1)[-1] for x in reach(u) if u in reach(x)})) if bad else '')
    for r, n in (('narrow', 6), ('alloc', 3), ('terminate', 4), ('recursion', 40)): ctx.need(r, n)
