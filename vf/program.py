"""Loads the resolved program (JSON written by analyzer/dots-extract) of /repo's current tree."""
import json, os, subprocess, sys, shutil, tempfile, hashlib, atexit, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = os.path.join(HERE, 'analyzer', 'bin', 'dots-extract')
DCG = '/opt/vp/dcg-venv/bin/dcg.py'

class AnalysisBroken(Exception):
    """The analysis could not be carried out (anchor vanished, source not parseable, ...)."""

MODELS = ['external/dots/model/connection.dots', 'external/dots/model/event.dots', 'external/dots/model/user.dots',
          'external/dots/model/descriptors.dots', 'lib/src/model/authentication.dots', 'lib/src/model/dotstesttypes.dots',
          'lib/src/model/daemon.dots', 'lib/src/model/legacy.dots']

DEFS = '-DBOOST_ERROR_CODE_HEADER_ONLY -DBOOST_PROGRAM_OPTIONS_NO_LIB -DBOOST_SYSTEM_NO_DEPRECATED -DDOTS_ENABLE_LOG_DATA ' \
       '-DDOTS_ENABLE_LOG_DEBUG -DFMT_HEADER_ONLY=1 -DHAS_STRING_VIEW=1 -DHAS_UNCAUGHT_EXCEPTIONS -DONLY_C_LOCALE=1 ' \
       '-DUSE_OS_TZDB=1 -DDOTS_PROPERTIES_NO_CONSTEXPR_OFFSETS -DNDEBUG -std=gnu++20 -w'.split()

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='dotsvf.')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

_gen = {}
def generated(models=None, extra=()):
    """Directory with the generated model headers, made from /repo's current models and templates."""
    key = tuple(extra)
    if key in _gen: return _gen[key]
    d = os.path.join(scratch(), 'gen%d' % len(_gen)); os.makedirs(d)
    ms = [os.path.join(REPO, m) for m in MODELS] + list(extra)
    def one(m):
        return subprocess.run([DCG, '--config=%s/dots-cg-cpp/src/config_cpp.py' % REPO, '--templatePath=%s/dots-cg-cpp/src' % REPO, m],
                              cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    with ThreadPoolExecutor(8) as ex:
        for m, r in zip(ms, ex.map(one, ms)):
            if r.returncode != 0: raise AnalysisBroken('code generation failed for %s: %s' % (m, r.stdout[-500:]))
    _gen[key] = d
    return d

def flags(gen, lib=True):
    f = list(DEFS)
    f += ['-I%s/lib/include' % REPO, '-I%s' % gen, '-isystem', '%s/external' % REPO, '-isystem', '/opt/vp/cmake/include',
          '-isystem', os.path.join(HERE, 'analyzer', 'stubs')]
    if lib: f.append('-DDOTS_NO_GLOBAL_TRANSCEIVER')
    return f

class Fn:
    __slots__ = ('u', 'q', 'file', 'line', 'endl', 'rt', 'ps', 'cls', 'clsq', 'kind', 'b', 'inits', 'ov', 'virt', 'st', 'cm', 'ne', 'ta', 'imp', 'acc', 'raw', 'dflt', 'is_lambda', 'tu')
    def short(self): return '%s (%s:%d)' % (self.q, rel(self.file), self.line)
    def __repr__(self): return '<Fn %s>' % self.q

def rel(f):
    if f.startswith(REPO + '/'): return f[len(REPO) + 1:]
    m = re.match(r'.*/gen\d+/(.*)', f)
    if m: return 'generated/' + m.group(1)
    if f.startswith(HERE + '/'): return 'verif/' + f[len(HERE) + 1:]
    return f

class Program:
    def __init__(self):
        self.fns = {}        # usr -> Fn
        self.by_q = {}       # qualified name -> [Fn]
        self.records = {}    # type string -> record
        self.records_q = {}  # qualified -> [record]
        self.enums = {}
        self.units = []
        self.overriders = {} # usr -> [usr]

    def add(self, data, tag):
        types = data['types']; usrs = {i: u for i, u in data['usrs']}
        def fix(n):
            # in-place resolution of type indexes, function ids and declaration ids
            stack = [n]
            while stack:
                x = stack.pop()
                if isinstance(x, list):
                    stack.extend(y for y in x if isinstance(y, (dict, list)))
                    continue
                if 't' in x and isinstance(x['t'], int): x['t'] = types[x['t']]
                if 'from' in x and isinstance(x['from'], int): x['from'] = types[x['from']]
                if 'ct' in x and isinstance(x['ct'], int): x['ct'] = types[x['ct']]
                if 'f' in x and isinstance(x['f'], int): x['f'] = usrs.get(x['f']) or '%s#%d' % (tag, x['f'])
                if 'd' in x and isinstance(x['d'], int): x['d'] = '%s.%d' % (tag, x['d'])
                for v in x.values():
                    if isinstance(v, (dict, list)): stack.append(v)
        for raw in data['fns']:
            u = usrs.get(raw['f']) or '%s#%d' % (tag, raw['f'])
            if u in self.fns: continue
            f = Fn(); f.u = u; f.q = raw['q']; f.file = raw['file']; f.line = raw['l']; f.endl = raw['endl']; f.tu = tag
            f.rt = types[raw['rt']]; f.cls = types[raw['cls']] if 'cls' in raw else None; f.clsq = raw.get('clsq')
            f.kind = raw['kind']; f.virt = raw.get('virt', 0); f.st = raw.get('st', 0); f.cm = raw.get('cm', 0); f.ne = raw.get('ne', 0)
            f.ta = raw.get('ta', ''); f.imp = raw.get('imp', 0); f.acc = raw.get('acc', 0); f.dflt = raw.get('def', 0); f.is_lambda = False
            f.ov = [usrs.get(i) for i in raw.get('ov', [])]
            fix(raw['ps']); f.ps = raw['ps']
            if raw.get('b') is not None: fix(raw['b'])
            f.b = raw['b']
            f.inits = raw.get('inits', [])
            for i in f.inits:
                if isinstance(i.get('base'), int): i['base'] = types[i['base']]
                if i.get('e'): fix(i['e'])
            f.raw = None
            self.fns[u] = f
            self.by_q.setdefault(f.q, []).append(f)
            for o in f.ov: self.overriders.setdefault(o, []).append(u)
        for r in data['recs']:
            t = types[r['t']]
            if t in self.records: continue
            r['bases'] = [types[b] for b in r['bases']]; r['t'] = t
            for fl in r['fields']: fl['t'] = types[fl['t']]
            for m in r['methods']: m['f'] = usrs.get(m['f']) or '%s#%d' % (tag, m['f'])
            self.records[t] = r
            self.records_q.setdefault(r['q'], []).append(r)
        for e in data['enums']: self.enums[e['q']] = e['vals']

    # -- lookups
    def find(self, q, **kw):
        """functions with qualified name q; kw: nparams, ptypes (list of substrings), cls (substring), ta"""
        r = self.by_q.get(q, [])
        if 'nparams' in kw: r = [f for f in r if len(f.ps) == kw['nparams']]
        if 'ptypes' in kw:
            r = [f for f in r if len(f.ps) == len(kw['ptypes']) and all(w in p['t'] for w, p in zip(kw['ptypes'], f.ps))]
        if 'cls' in kw: r = [f for f in r if f.cls and kw['cls'] in f.cls]
        if 'ta' in kw: r = [f for f in r if kw['ta'] in f.ta]
        if 'const' in kw: r = [f for f in r if bool(f.cm) == kw['const']]
        return r
    def get(self, q, **kw):
        r = self.find(q, **kw)
        if len(r) != 1: raise AnalysisBroken('expected exactly one function %s %s, found %d: %s' % (q, kw, len(r), [x.short() for x in r][:6]))
        return r[0]
    def some(self, q, **kw):
        r = self.find(q, **kw)
        if not r: raise AnalysisBroken('function %s %s not found' % (q, kw))
        return r
    def bases_q(self, t, seen=None):
        """qualified names of all (transitive) bases of a record type known to the program"""
        out = set(); seen = seen or set()
        r = self.records.get(t)
        if not r: return out
        for b, bq in zip(r['bases'], r.get('basesq', [])):
            out.add(bq)
            if b not in seen: seen.add(b); out |= self.bases_q(b, seen)
        return out
    def derived(self, q):
        return [r for r in self.records.values() if q in self.bases_q(r['t'])]

_ALL = None
def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'lib/src')):
        for f in fs:
            if f.endswith('.cpp'): out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)

def load(units, extra_sources=(), roots=None, jobs=8, extra_models=()):
    """units: paths relative to /repo (or 'ALL' for every lib source); extra_sources: absolute paths in /verif."""
    if units == 'ALL': units = lib_sources()
    if not os.path.exists(TOOL):
        r = subprocess.run([os.path.join(HERE, 'analyzer', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: raise AnalysisBroken('cannot build the extractor: ' + r.stdout[-1000:])
    gen = generated(extra=extra_models)
    roots = roots or [REPO + '/lib', REPO + '/bin', gen, os.path.join(HERE, 'analyzer')]
    P = Program(); P.gen = gen
    jobsl = []
    for i, u in enumerate(list(units) + list(extra_sources)):
        src = u if os.path.isabs(u) else os.path.join(REPO, u)
        if not os.path.exists(src): raise AnalysisBroken('source %s is gone' % u)
        jobsl.append((i, src, os.path.join(scratch(), 'u%d_%s.json' % (i, hashlib.md5(src.encode()).hexdigest()[:8]))))
    def run(j):
        i, src, out = j
        f = flags(gen, lib=src.startswith(REPO + '/lib/src'))
        return subprocess.run([TOOL, out, ':'.join(roots), src, '--', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + f,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(jobs) as ex:
        for j, r in zip(jobsl, ex.map(run, jobsl)):
            if r.returncode != 0: raise AnalysisBroken('cannot parse %s:\n%s' % (j[1], r.stdout[-2000:]))
            with open(j[2]) as fh: P.add(json.load(fh), 'T%d' % j[0])
            os.unlink(j[2])
            P.units.append(rel(j[1]))
    return P
