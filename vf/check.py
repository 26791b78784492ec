"""Runs the rules of one property: python3 -m vf.check C01 [quick|thorough]"""
import sys, os, json, time, importlib, traceback
from . import program
from .program import AnalysisBroken, HERE, rel
from .engine import Limit

class Ctx:
    def __init__(self, prop):
        self.prop = prop; self.obl = []; self.viol = []; self.counts = {}; self.samples = {}; self.rules = {}; self.assume = []; self.analysed = set()
        self.units = []
    def rule(self, name, text): self.rules.setdefault(name, text)
    def ob(self, rule, key, ok, where, why=''):
        """one obligation: rule applied to a named construct"""
        self.counts[rule] = self.counts.get(rule, 0) + 1
        self.samples.setdefault(rule, [])
        if len(self.samples[rule]) < 3: self.samples[rule].append('%s @ %s: %s' % (key, where, 'ok' if ok else 'VIOLATED'))
        if not ok: self.viol.append(dict(rule=rule, key=key, where=where, why=why))
        return ok
    def need(self, rule, n, what=''):
        c = self.counts.get(rule, 0)
        if c < n: raise AnalysisBroken('rule %s matched %d constructs, at least %d confirmed by hand %s' % (rule, c, n, what))
    def fns(self, fs):
        for f in fs: self.analysed.add(f if isinstance(f, str) else f.short())
    def engine(self, E):
        for u in E.visited:
            f = E.P.fns.get(u)
            if f: self.analysed.add(f.short())

def known(prop):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                body = l.split(' ', 2)[2]
                key, _, text = body.partition(' :: ')
                out[key.strip()] = text.strip()
    return out

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    ctx = Ctx(prop); ctx.tier = tier
    broken = None
    try:
        m = importlib.import_module('rules.' + prop)
        m.check(ctx, tier)
    except (AnalysisBroken, Limit) as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    kf = known(prop)
    new, old = [], {}
    seen = set()
    for v in ctx.viol:
        k = '%s %s' % (v['rule'], v['key'])
        if k in kf: old.setdefault(k, v); continue
        if (k, v['why']) in seen: continue
        seen.add((k, v['why'])); new.append(v)
    total = sum(ctx.counts.values())
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
        coverage=dict(explanation='Static analysis of the resolved program (clang AST of the current sources): every listed rule was applied to every construct it matches; '
            'a path rule is decided on all abstract paths of the function with its helpers analysed in context.',
            units_parsed=len(ctx.units), units=ctx.units[:60], functions_analysed=len(ctx.analysed), functions=sorted(ctx.analysed)[:80],
            obligations=total, discharged=total - len(ctx.viol), rules={r: dict(text=ctx.rules.get(r, ''), instances=ctx.counts.get(r, 0), samples=ctx.samples.get(r, [])) for r in sorted(set(ctx.rules) | set(ctx.counts))}),
        assumptions=ctx.assume, wall_s=round(time.time() - t0, 2), violations=len(new))
    if old: ev['coverage']['known_findings'] = sorted(old)
    if broken: ev['coverage']['analysis_broken'] = broken[:2000]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d units, %d functions, %d obligations of %d rules, %d violated (%d known), %.1fs' % (prop, len(ctx.units), len(ctx.analysed), total, len(ctx.counts), len(ctx.viol), len(old), time.time() - t0))
    for r in sorted(ctx.counts): print('  rule %-28s %4d instances  %s' % (r, ctx.counts[r], ctx.rules.get(r, '')))
    for k, v in old.items(): print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k, kf[k]))
    if new:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.txt' % prop)
        with open(rp, 'w') as f:
            shown = {}
            for v in new:
                kk = (v['rule'], v['key']); shown[kk] = shown.get(kk, 0) + 1
                s = 'rule %s: %s\n  construct: %s\n  at: %s\n  %s\n' % (v['rule'], ctx.rules.get(v['rule'], ''), v['key'], v['where'], v['why'])
                f.write(s)
                if shown[kk] == 1: print('violated ' + s.rstrip()[:1500])
        if broken: print('note: analysis incomplete: ' + broken.splitlines()[-1])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    if broken:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, broken))
        sys.exit(3)
    sys.exit(0)
if __name__ == '__main__': main()
