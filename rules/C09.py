from .host import *
from .C08 import group_mut

def check(ctx, tier):
    h = Host(ctx); P = h.P; f = h.tr
    ctx.rule('groups', 'when a connection closes it is erased from every group, unconditionally and before its removal events are published')
    ctx.rule('forget', 'when a connection closes it is erased from the set of guest connections on every path, after everything that still uses it')
    ctx.rule('cleanup', 'every cached instance of a cleanup type whose last writer is the closed connection is removed, and no other instance')
    ctx.rule('copy', 'the instances to remove are copied before the first removal, because removing changes the containers')
    ctx.rule('apart', 'no container is iterated while instances are removed')
    ctx.rule('closed-only', 'none of this happens while the connection is not closed')
    ctx.rule('alive', 'while a message of a guest is processed its connection is kept alive by a local owner')
    ctx.rule('contained', 'a failing removal does not escape the transition handler')
    ctx.rule('clear', 'clearing the cache on request removes exactly the instances of the named types, copied first')
    E = h.engine(rec_loop=True)
    ctx.fns([f])
    is_con = con_pred(f)
    def rem(p): return [(i, e) for i, e in h.publishes(p) if e.name() == 'remove' or (e.name() == 'publish' and len(e.a) > 2 and e.a[2] is TRUE)]
    ncl = 0
    for p in h.paths(f, E):
        isclosed = [v for a, v in p.facts.items() if (a.op == '==' and a.a[1].op == 'enum' and a.a[1].a[0].endswith('::closed') and mentions(a.a[0], is_con)) or (a.op == 'pc' and a.a[0] == CONN + '::closed')]
        gm = group_mut(h, p); rm = rem(p); pub = h.publishes(p)
        fg = [(i, e) for i, e in enumerate(p.tr) if e.k == 'call' and e.o is not None and mentions(e.o, h.is_guests) and e.name() in ('erase', 'extract', 'clear')]
        if isclosed != [True]:
            ctx.ob('closed-only', 'effects', not gm and not pub and not fg, at(f), 'a connection that is not closed is (partly) forgotten; ' + pathstr(p)); continue
        if p.how != 'ret': ctx.ob('contained', 'exit', False, at(f), pathstr(p)); continue
        ncl += 1
        ctx.ob('forget', 'erased', len(fg) == 1 and fg[0][1].name() in ('erase', 'extract') and len(fg[0][1].a) == 1 and is_con(fg[0][1].a[0]), at(f), 'the closed connection stays in the set of guest connections; ' + pathstr(p))
        for i, e in fg:
            late = [x for x in p.tr[i + 1:] if x.k != 'loopexit' and any(mentions(t, is_con) for t in ((x.o,) if x.o is not None else ()) + tuple(x.a))]
            ctx.ob('forget', 'not used afterwards', not late, late[0].loc() if late else e.loc(), 'the connection is used after it was erased (and possibly destroyed); ' + pathstr(p))
        ge = [v for a, v in p.facts.items() if a.op == 'empty' and h.is_groups(a.a[0])]
        if ge == [False] or gm:
            ok = len(gm) == 1 and gm[0][1].name() == 'erase' and gm[0][1].a and is_con(gm[0][1].a[0]) and mentions(gm[0][1].o, lambda x: x.op in ('elem', 'each') and h.is_groups(x.a[0]))
            ctx.ob('groups', 'erased', ok, gm[0][1].loc() if gm else at(f), 'the closed connection stays a member of a group; ' + pathstr(p))
            for j, e in rm: ctx.ob('groups', 'before removals', bool(gm) and gm[0][0] < j, e.loc(), 'removals are published while the closed connection is still a member; ' + pathstr(p))
        elif ge != [True]: ctx.ob('groups', 'visited', any(x.k == 'call' and x.q.endswith('erase_if') for x in p.tr), at(f), 'the groups are not visited; ' + pathstr(p))
        for e in p.tr:
            if e.k == 'loopexit': ctx.ob('cleanup' if not h.is_groups(e.o.a[0]) else 'groups', 'complete', e.q == 'next', e.loc(), 'an iteration is ended early; ' + pathstr(p))
        pe = [v for a, v in p.facts.items() if a.op == 'empty' and a.a[0].op in ('pc', 'ret') and a.a[0].a[0].endswith('::pool')]
        cl = [v for a, v in p.facts.items() if mentions(a, lambda x: x.op == 'pc' and x.a[0].endswith('::cleanup')) and a.op in ('pc',)]
        own = [v for a, v in p.facts.items() if a.op in ('peq', '==') and mentions(a, lambda x: is_fld(x, 'lastUpdateFrom')) and mentions(a, lambda x: x.op == 'pc' and x.a[0].endswith('::peerId') and mentions(x, is_con))]
        ce = [v for a, v in p.facts.items() if a.op == 'empty' and a.a[0].op == 'fld' and mentions(a.a[0], lambda x: x.op in ('pc', 'ret') and x.a[0].endswith('::pool'))]
        must = cl == [True] and own == [True]
        if must:
            ctx.ob('cleanup', 'removed', len(rm) == 1, at(f), 'an instance last written by the closed connection is removed %d times; %s' % (len(rm), pathstr(p)))
            for i, e in rm:
                src = e.a[0]
                el = [x for x in walk(src) if x.op in ('elem', 'each')]
                ctx.ob('cleanup', 'which', len(el) >= 1 and mentions(src, lambda x: x.op == 'elem' or x.op == 'each') and any(mentions(x, lambda y: y.op in ('pc', 'ret') and y.a[0].endswith('::pool')) for x in el), e.loc(), 'removed: %s' % show(src)[:200])
                vt = [x for x in walk(src) if x.op == 'new' and isinstance(x.a[0], str) and x.a[0].startswith('std::')]
                ctx.ob('copy', 'collected', bool(vt) and all('AnyStruct' in x.a[0] and '*' not in x.a[0] and 'reference_wrapper' not in x.a[0] for x in vt), e.loc(), 'the instances are removed through references into the containers: %s' % show(src)[:200])
                inner = [j for j, x in enumerate(p.tr) if x.k == 'loopexit' and mentions(x.o, lambda y: y.op in ('pc', 'ret') and y.a[0].endswith('::pool')) and not mentions(x.o, lambda y: y.op == 'mut')]
                ctx.ob('apart', 'removal', all(j < i for j in inner) and bool(inner), e.loc(), 'instances are removed while a container is iterated; ' + pathstr(p))
        else:
            ctx.ob('cleanup', 'others kept', not rm, rm[0][1].loc() if rm else at(f), 'an instance is removed that is not of a cleanup type or was not last written by the closed connection; ' + pathstr(p))
            if pe == [False] and cl != [False] and ce != [True]: ctx.ob('cleanup', 'decided by type and writer', own == [False] and len(cl) >= 1, at(f), 'whether an instance is removed does not depend on type and last writer; ' + pathstr(p))
    ctx.ob('cleanup', 'reachable', any(rem(p) for p in h.paths(f, E)), at(f), 'no path removes anything')
    ctx.need('forget', 4); ctx.need('groups', 2); ctx.need('cleanup', 4); ctx.need('closed-only', 1)
    # failing removals
    E2 = h.engine(may_throw=lambda e: e.k == 'call' and e.name() in ('remove', 'publish'))
    for p in h.paths(f, E2): ctx.ob('contained', 'no escape', not (p.how == 'throw' and 'std::exception' in show(p.val)), at(f), pathstr(p)) if p.how == 'throw' and f.ne == 0 else ctx.ob('contained', 'no escape', True, at(f))
    # processing keeps the connection alive
    g = h.rx
    gp = [x['n'] for x in g.ps if 'Connection' in x['t']][0]
    owners = [n for n in nodes(g.b) if n['k'] == 'decl' for v in n.get('v', [n]) if 'shared_ptr<dots::Connection>' in str(v.get('t', '')) and not str(v.get('t', '')).strip().endswith('&')]
    ctx.ob('alive', g.q, bool(owners), at(g), 'no local owner of the connection in %s' % g.q)
    # clear cache
    E3 = h.engine(rec_loop=True)
    for p in h.paths(g, E3):
        if not any(v is True and a.op == '==' and a.a[0].op == 'dyntype' and a.a[1].op == 'enum' and a.a[1].a[0].endswith('::DotsClearCache') for a, v in p.facts.items()): continue
        if p.how != 'ret': continue
        rm = rem(p)
        for i, e in rm:
            src = e.a[0]
            vt = [x for x in walk(src) if x.op == 'new' and isinstance(x.a[0], str) and x.a[0].startswith('std::')]
            ctx.ob('clear', 'copied', bool(vt) and all('AnyStruct' in x.a[0] and '*' not in x.a[0] and 'reference_wrapper' not in x.a[0] for x in vt), e.loc(), 'the instances are removed through references into the containers: %s' % show(src)[:200])
            inner = [j for j, x in enumerate(p.tr) if x.k == 'loopexit' and mentions(x.o, lambda y: y.op == 'fld' and mentions(y, lambda z: z.op in ('pc', 'ret') and z.a[0].endswith('::pool'))) and not mentions(x.o, lambda y: y.op == 'mut')]
            ctx.ob('clear', 'apart', all(j < i for j in inner) and bool(inner), e.loc(), 'instances are removed while their container is iterated; ' + pathstr(p))
            named = [v for a, v in p.facts.items() if mentions(a, lambda x: is_fld(x, 'typeNames')) and a.op in ('==', 'has', 'pc', '<', 'any')]
            ctx.ob('clear', 'named', bool(named), e.loc(), 'instances are removed without regard to the named types; ' + pathstr(p))
    ctx.need('clear', 2)
    ctx.engine(E)
