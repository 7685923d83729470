"""Runs the extractor over the translation units and merges the facts."""
import json, os, subprocess, sys, glob, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
NSA = os.path.dirname(HERE)
VERIF = os.path.dirname(NSA)
REPO = os.environ.get('NSA_REPO', '/repo')
EXTRACT = os.path.join(NSA, 'build', 'nsa-extract')

FLAGS = ['-DNIMBLE_HAVE_EXODUS', '-DNIMBLE_HAVE_KOKKOS', '-DNIMBLE_HAVE_MPI', '-DNIMBLE_HAVE_TRILINOS',
         '-I%s/src' % REPO, '-I%s/tpl' % REPO,
         '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
         '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
         '-isystem', '/usr/include/trilinos', '-DNDEBUG', '-std=c++14', '-w']

# sources that the pinned configuration does not compile (optional back ends)
EXCLUDE_DIRS = ('uq/',)
EXCLUDE_PAT = ('arborx', 'bvh_')


UB = {}                  # undefined accesses seen in this run
VISITED = set()          # functions evaluated in this run


class Violated(Exception):
    """the property is certainly broken on the path being evaluated"""


class AnalysisError(Exception):
    """the analysis itself cannot give an answer (vanished anchor, unparsable source)"""


def ensure_extractor():
    if os.path.exists(EXTRACT):
        src = os.path.join(NSA, 'extract', 'extract.cc')
        if os.path.getmtime(EXTRACT) >= os.path.getmtime(src) or not os.access(os.path.dirname(EXTRACT), os.W_OK):
            return
    r = subprocess.run(['make', '-s', '-B', '-C', os.path.join(NSA, 'extract')], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('cannot build the extractor: ' + r.stderr[-2000:])


def units():
    out = []
    for f in sorted(glob.glob(REPO + '/src/**/*.cc', recursive=True)):
        rel = f[len(REPO) + 5:]
        if rel.startswith(EXCLUDE_DIRS) or any(p in os.path.basename(rel) for p in EXCLUDE_PAT):
            continue
        out.append(f)
    return out


class Program:
    def __init__(self):
        self.functions = {}     # key -> node
        self.by_q = {}          # qualified name -> [keys]
        self.records = {}       # canonical type string -> record
        self.rec_by_q = {}
        self.enums = {}
        self.vars = {}
        self.units = []
        self.overriders = {}    # base key -> [derived keys] (transitive closure lazily)
        self.gvars = {}

    def fn(self, q, nparams=None, pred=None, req=True, key=None):
        ks = self.by_q.get(q, [])
        fs = [self.functions[k] for k in ks]
        if nparams is not None:
            fs = [f for f in fs if len(f['params']) == nparams]
        if pred:
            fs = [f for f in fs if pred(f)]
        if key:
            fs = [f for f in fs if key in f['key']]
        if not fs:
            if req:
                raise AnalysisError('anchor function %s not found in the analysed sources' % q)
            return None
        return fs[0]

    def fns(self, q):
        return [self.functions[k] for k in self.by_q.get(q, [])]

    def rel(self, f):
        p = f['file'] if isinstance(f, dict) else f
        return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p


def load(extra=(), only=None):
    """extra: witness TUs (absolute paths under /verif) that instantiate templates of /repo headers"""
    ensure_extractor()
    us = units()
    if only is not None:
        us = [u for u in us if any(u.endswith('/' + o) for o in only)]
        for o in only:
            if not any(u.endswith('/' + o) for u in us):
                pass
    us = us + list(extra)
    tmp = tempfile.mkdtemp(prefix='nsa.')
    try:
        def run(u):
            out = os.path.join(tmp, hashlib.sha1(u.encode()).hexdigest() + '.json')
            env = dict(os.environ)
            r = subprocess.run([EXTRACT, REPO + '/src/', out, u, '--'] + FLAGS, capture_output=True, text=True, cwd=tmp, env=env)
            if r.returncode != 0 or not os.path.exists(out):
                return u, None, r.stderr
            with open(out, encoding='utf-8', errors='replace') as fh:
                d = json.load(fh)
            os.unlink(out)
            return u, d, ''
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, us))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    P = Program()
    for u, d, err in res:
        if d is None:
            raise AnalysisError('cannot parse %s: %s' % (u, err[-1500:]))
        P.units.append(u)
        merge(P, d)
    for k, f in P.functions.items():
        for b in f.get('ov', ()):
            P.overriders.setdefault(b, []).append(k)
    for r in P.records.values():
        for m in r['methods']:
            for b in m['ov']:
                l = P.overriders.setdefault(b, [])
                if m['key'] not in l:
                    l.append(m['key'])
    return P


def merge(P, d):
    types = d['types']

    def fix(o):
        # replace type indices by strings, in place
        stack = [o]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                for tk in ('t', 'ct', 'at', 'ot', 'rt', 'clst', 'base', 'ft'):
                    v = x.get(tk)
                    if type(v) is int:
                        x[tk] = types[v]
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        stack.append(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        stack.append(v)

    for f in d['functions']:
        if f['key'] in P.functions and not (f.get('internal')):
            continue
        if f['key'] in P.functions and P.functions[f['key']]['file'] == f['file']:
            continue
        fix(f)
        P.functions[f['key']] = f
        P.by_q.setdefault(f['q'], []).append(f['key'])
    for r in d['records']:
        t = types[r['t']]
        if t in P.records:
            continue
        r['bases'] = [types[b] for b in r['bases']]
        for x in r['fields']:
            fix(x)
        r['t'] = t
        P.records[t] = r
        P.rec_by_q.setdefault(r['q'], []).append(r)
    for e in d['enums']:
        P.enums.setdefault(e['q'], e)
    for v in d['vars']:
        fix(v)
        q = v['v']['q']
        if q not in P.vars or (v['def'] and not P.vars[q]['def']):
            P.vars[q] = v
