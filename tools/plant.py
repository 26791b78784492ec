#!/usr/bin/env python3
"""Development tool: confirm planted bugs and store them under /verif/seeded.
plant.py SPEC.py [id...]     SPEC.py defines S = [dict(id, prop, edits=[(file, old, new)], demo=C++ text, needs, breaks, vg=bool)]
plant.py --recheck [id...]   run the check of each stored bug again
Works in private copies of /repo (/tmp/pl/N, bind-mounted over /repo in a mount namespace of its own)."""
import sys, os, subprocess, json, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
import threading, queue
SEED = '/verif/seeded'; BASE = '85c7c47'
DEMO_SH = '''#!/bin/bash
# compiles demo.cpp against the library built from /repo and runs it
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
g++ -std=gnu++20 -w -g -O0 -DBOOST_ERROR_CODE_HEADER_ONLY -DBOOST_PROGRAM_OPTIONS_NO_LIB -DBOOST_SYSTEM_NO_DEPRECATED -DDOTS_ENABLE_LOG_DATA -DDOTS_ENABLE_LOG_DEBUG -DFMT_HEADER_ONLY=1 -DHAS_STRING_VIEW=1 -DHAS_UNCAUGHT_EXCEPTIONS -DONLY_C_LOCALE=1 -DUSE_OS_TZDB=1 @EXTRA@ \\
  -I"$D" -I"$R/lib/include" -I"$R/_build/lib" -isystem "$R/external" -isystem /opt/vp/cmake/include "$D/demo.cpp" @SRC@ -o "$W/demo" "$R/_build/lib/libdots.a" $(find "$R/_build" -name 'libdate*.a' -o -name 'libfmt*.a' | head -3) -Wl,--unresolved-symbols=ignore-all -ldate-tz -lboost_program_options -lboost_system -lpthread || exit 2
cd "$W" && @RUN@
'''
def sh(cmd, slot=None, **kw):
    if slot: cmd = ['unshare', '-rm', 'bash', '-c', 'mount --bind /tmp/pl/%s /repo && cd /repo && %s' % (slot, cmd)]
    else: cmd = ['bash', '-c', cmd]
    return subprocess.run(cmd, capture_output=True, text=True, errors='replace', **kw)
def slotdir(s):
    d = '/tmp/pl/' + s
    if not os.path.exists(d): os.makedirs('/tmp/pl', exist_ok=True); sh('cp -a /repo %s' % d)
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if sh('git -C %s rev-parse HEAD' % d).stdout.strip() != head:
        sh('rsync -a --delete /repo/ %s/ 2>/dev/null || { rm -rf %s; cp -a /repo %s; }' % (d, d, d))
    sh('git -C %s checkout -q -- .' % d)
    return d
def check(prop, slot):
    r = sh('/verif/check.sh %s quick' % prop, slot, timeout=900)
    v = [l for l in r.stdout.splitlines() if l.startswith(('violated rule', '  construct', '  at:'))]
    return r.returncode, 'VIOLATION property=%s' % prop in r.stdout, v, (r.stdout + r.stderr)[-300:]
def one(s, slot):
    out = ['== %s (%s)' % (s['id'], s['prop'])]
    d = slotdir(slot); ok = True
    for f, o, n in s['edits']:
        t = open(d + '/' + f).read()
        if t.count(o) != 1: return '\n'.join(out + ['  BAD EDIT in %s: %d matches of %r' % (f, t.count(o), o[:60])])
        open(d + '/' + f, 'w').write(t.replace(o, n))
    patch = sh('git -C %s diff' % d).stdout
    # removed lines must be original ones
    mine = []
    for f in sorted(set(e[0] for e in s['edits'])):
        bl = sh('git -C %s blame -s HEAD -- %s' % (d, f)).stdout.splitlines()
        hunk = [l for l in sh("git -C %s diff -U0 -- %s | grep '^@@'" % (d, f)).stdout.splitlines()]
        for h in hunk:
            a = h.split()[1][1:].split(','); st = int(a[0]); cnt = int(a[1]) if len(a) > 1 else 1
            for i in range(st, st + cnt):
                if not bl[i - 1].startswith('^'): mine.append(bl[i - 1][:100])
    if mine: out.append('  WARNING touches lines of our own commits: %s' % mine[:3])
    p = os.path.join(SEED, s['id']); tmp = '/tmp/pl/w_' + s['id']
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + '/patch.diff', 'w').write(patch)
    open(tmp + '/demo.cpp', 'w').write(s['demo'])
    if '"h.h"' in s['demo']: shutil.copy('/verif/tools/h.h', tmp + '/h.h')
    run = 'timeout 100 valgrind -q --error-exitcode=9 --exit-on-first-error=yes --show-mismatched-frees=no --undef-value-errors=%s "$W/demo"' % ('yes' if s.get('vg') == 'undef' else 'no') if s.get('vg') else ('ASAN_OPTIONS=detect_leaks=0:detect_container_overflow=0:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0 ' if s.get('asan') else '') + 'timeout 100 "$W/demo"'
    if '"digest.h"' in s['demo']: shutil.copy('/verif/tools/digest.h', tmp + '/digest.h')
    open(tmp + '/demo.sh', 'w').write(DEMO_SH.replace('@RUN@', run).replace('@EXTRA@', s.get('extra', '') + (' -fsanitize=address' if s.get('asan') else '')).replace('@SRC@', s.get('src', '') + ' '.join('"$R/%s"' % x for x in s.get('asan', ())))); os.chmod(tmp + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
    r = sh('timeout 300 bash %s/demo.sh' % tmp, cwd='/repo')
    if r.returncode != 0: ok = False; out.append('  demo FAILS on the unchanged tree: %s' % (r.stdout + r.stderr)[-1500:])
    b = sh('bash /opt/vp/build.sh', slot)
    if b.returncode != 0: ok = False; out.append('  BUILD FAILS: ' + '\n'.join(l for l in b.stdout.splitlines() if 'error' in l)[:600])
    else:
        t = sh('bash /opt/vp/test.sh /tmp/pl/t_%s.json' % slot, slot)
        res = json.load(open('/tmp/pl/t_%s.json' % slot)); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = sorted(set(st) - set(res['passed']))
        if miss: ok = False; out.append('  TESTS FAIL: %s' % miss[:5])
        r2 = sh('timeout 300 bash %s/demo.sh' % tmp, slot)
        if r2.returncode == 0: ok = False; out.append('  demo PASSES with the patch')
        elif r2.returncode == 2: ok = False; out.append('  demo does not compile with the patch: ' + r2.stderr[-500:])
        else: out.append('  demo exit %d: %s' % (r2.returncode, (r2.stdout + r2.stderr).strip()[-200:]))
    if os.path.exists('/verif/rules/%s.py' % s['prop']):
        rc, viol, v, tail = check(s['prop'], slot)
        out.append('  check: exit %d %s %s' % (rc, 'CAUGHT' if rc == 1 and viol else 'MISSED', ' | '.join(v[:6])[:500] if v else tail[-200:] if rc not in (0, 1) else ''))
    else: out.append('  no check')
    sh('git -C %s checkout -q -- .' % d)
    if ok:
        shutil.rmtree(p, ignore_errors=True); os.makedirs(SEED, exist_ok=True); shutil.copytree(tmp, p); out.append('  stored')
    shutil.rmtree(tmp, ignore_errors=True)
    return '\n'.join(out)
def recheck(i, slot):
    d = slotdir(slot); m = json.load(open('%s/%s/meta.json' % (SEED, i)))
    r = sh('git -C %s apply %s/%s/patch.diff' % (d, SEED, i))
    if r.returncode: return '%s: does not apply' % i
    rc, viol, v, tail = check(m['property'], slot)
    sh('git -C %s checkout -q -- .' % d)
    return '%-28s %s exit %d %s %s' % (i, m['property'], rc, 'CAUGHT' if rc == 1 and viol else 'MISSED', v[0][14:90] if v else tail[-120:] if rc not in (0, 1) else '')
def refactor(s, slot):
    d = slotdir(slot)
    for f, o, n in s['edits']:
        t = open(d + '/' + f).read()
        if t.count(o) != 1: return '%s: BAD EDIT in %s: %d matches of %r' % (s['id'], f, t.count(o), o[:60])
        open(d + '/' + f, 'w').write(t.replace(o, n))
    out = []
    b = sh('bash /opt/vp/build.sh', slot)
    if b.returncode: out.append('BUILD FAILS ' + '\n'.join(l for l in b.stdout.splitlines() if 'error' in l)[:600])
    for pr in s['props']:
        rc, viol, v, tail = check(pr, slot)
        out.append('%s %s' % (pr, 'quiet' if rc == 0 else 'ALARM exit %d %s' % (rc, ' | '.join(v[:6])[:400] or tail)))
    sh('git -C %s checkout -q -- .' % d)
    return '%-24s %s' % (s['id'], '; '.join(out))
if __name__ == '__main__':
    if sys.argv[1] == '--recheck':
        ids = sys.argv[2:] or sorted(os.listdir(SEED)); jobs = [(recheck, i) for i in ids]; n = 4
    else:
        S = runpy.run_path(sys.argv[1])['S']; ids = sys.argv[2:]
        jobs = [(refactor if 'props' in s else one, s) for s in S if not ids or s['id'] in ids]; n = int(os.environ.get('N', '3'))
    slots = queue.Queue(); [slots.put('S%d' % i) for i in range(n)]
    def go(j):
        s = slots.get()
        try: r = j[0](j[1], s)
        except Exception as e: r = '%s: %r' % (j[1] if isinstance(j[1], str) else j[1]['id'], e)
        finally: slots.put(s)
        print(r, flush=True)
    with ThreadPoolExecutor(n) as ex: list(ex.map(go, jobs))
