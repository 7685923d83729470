"""Abstract interpreter over the resolved syntax tree.

Each statement is visited once per calling context; branches are merged into gated nodes, loops
with constant trip count are unrolled, all other loops are summarised once over a canonical
binder ($k<depth>, counting 0..N-1).  The result is a value graph plus an ordered list of
guarded, quantified effects (writes to non-local memory, calls to opaque functions, throws).
"""
import re, sys
from fractions import Fraction
from math import gcd
from . import terms as T
from .terms import Poly, Val, ZERO, ONE, TRUE, FALSE, UNDEF, VOID
from . import facts
from .facts import AnalysisError

sys.setrecursionlimit(20000)

NUMT = {'double', 'float', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long',
        'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'long double', 'size_t', 'int64_t'}
FLOATT = {'double', 'float', 'long double'}


def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '):
            t = t[6:]
        if t.startswith('volatile '):
            t = t[9:]
        if t.endswith(' const'):
            t = t[:-6]
        if t.endswith('*const'):
            t = t[:-5]
        t = t.strip()
        if t == o:
            return t


def strip_ref(t):
    t = strip_cv(t)
    if '(&)[' in t:
        t = t.replace(' (&)', '', 1)
    while t.endswith('&'):
        t = t[:-1].strip()
    return strip_cv(t)


def is_ref(t):
    return t.rstrip().endswith('&') or '(&)[' in t


def is_ptr(t):
    s = strip_cv(strip_ref(t))
    return s.endswith('*') or '(*)' in s or '(*const)' in s


def is_float(t):
    return strip_ref(t) in FLOATT


def is_num(t, P=None):
    s = strip_ref(t)
    return s in NUMT or (P is not None and s in P.enums)


def is_bool(t):
    return strip_ref(t) == 'bool'


_STRRE = re.compile(r'^(std::)?(__cxx11::)?basic_string<char')


def is_string(t):
    s = strip_ref(t).replace('std::__cxx11::', 'std::')
    return bool(_STRRE.match(s)) or s in ('std::string',)


def is_view(t):
    s = strip_ref(t)
    return s.startswith('Kokkos::View<') or s.startswith('Kokkos::Experimental::ScatterView') or s.startswith('Kokkos::DynRankView')


_SMART = ('std::unique_ptr<', 'std::shared_ptr<', 'Teuchos::RCP<')


def is_smart(t):
    return strip_ref(t).startswith(_SMART)


def arr_dims(t):
    """'double[3][4]' -> ('double', [3,4])"""
    s = strip_cv(strip_ref(t))
    m = re.match(r'^(.*?)((\[\d+\])+)$', s)
    if not m or '(*' in s:
        return None
    return m.group(1).strip(), [int(x) for x in re.findall(r'\[(\d+)\]', m.group(2))]


_fpcache = {}


def fn_params(key):
    """canonical parameter types out of a function key"""
    r = _fpcache.get(key)
    if r is not None:
        return r
    sig = key.rsplit(' : ', 1)[-1]
    # find the parameter list: last top-level '(' group
    depth = 0
    end = None
    i = len(sig) - 1
    # strip trailing qualifiers
    j = sig.rfind(')')
    start = None
    depth = 0
    for i in range(j, -1, -1):
        c = sig[i]
        if c == ')':
            depth += 1
        elif c == '(':
            depth -= 1
            if depth == 0:
                start = i
                break
    inner = sig[start + 1:j] if start is not None else ''
    out = []
    depth = 0
    cur = ''
    for c in inner:
        if c in '<([':
            depth += 1
        elif c in '>)]':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    _fpcache[key] = (out, sig[j + 1:].strip() if j >= 0 else '')
    return _fpcache[key]


def _constpath(path):
    for p in path:
        if p[0] == 'i':
            x = p[1]
            if isinstance(x, tuple):
                for y in x:
                    if not isinstance(y, Poly) or y.as_int() is None:
                        return False
            elif not isinstance(x, Poly) or x.as_int() is None:
                return False
        elif p[0] in ('*', 'e', 's'):
            return False
    return True


class Loop:
    __slots__ = ('sym', 'n', 'id', 'line', 'file', 'par', 'breaks', 'kind', 'cont', 'cond')

    def __init__(self, sym, n, line, file, par=False, kind='for', cont=None):
        self.sym, self.n, self.line, self.file, self.par, self.kind, self.cont = sym, n, line, file, par, kind, cont
        self.breaks = False
        self.cond = None

    def __repr__(self):
        return 'for %r<%s%s' % (self.sym, T.vstr(self.n), ' par' if self.par else '')


class Effect:
    __slots__ = ('kind', 'guards', 'loops', 'q', 'fn', 'obj', 'args', 'ret', 'loc', 'val', 'line', 'file', 'stack',
                 'seq', 'node', 'argt', 'old', 'objt', 'in_catch', 'argloc')

    def __init__(self, kind, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))
        self.kind = kind

    @property
    def guard(self):
        return T.b_and(*self.guards)

    def where(self):
        return '%s:%s' % (self.file, self.line)

    def __repr__(self):
        s = ''
        if self.loops:
            s += ' '.join('{%r}' % l for l in self.loops) + ' '
        if self.guards:
            s += 'if ' + ' && '.join(map(repr, self.guards)) + ' : '
        if self.kind == 'write':
            s += '%s := %s' % (T.lstr(self.loc), T.vstr(self.val))
        elif self.kind == 'call':
            s += '%s%s(%s)' % ((T.vstr(self.obj) + ' -> ') if self.obj is not None else '', self.q, ', '.join(map(T.vstr, self.args)))
        else:
            s += '%s %s' % (self.kind, T.vstr(self.val) if self.val is not None else '')
        return s


class State:
    __slots__ = ('mem', 'guards')

    def __init__(self, mem, guards):
        self.mem = mem
        self.guards = guards

    def fork(self, g=None):
        return State(dict(self.mem), self.guards + ((g,) if g is not None and g != TRUE else ()))


class Frame:
    def __init__(self, fn, fid, parent=None):
        self.fn = fn
        self.id = fid
        self.bind = dict(parent.bind) if parent else {}
        self.this = parent.this if parent else None
        self.returns = []
        self.ctl = []          # break/continue contexts
        self.base_guards = ()
        self.file = parent.file if parent else ''
        self.name = ''


class Ctl:
    def __init__(self, kind, base):
        self.kind = kind
        self.base = base
        self.breaks = []
        self.conts = []


def split_targs(t):
    """template arguments of a type"""
    t = strip_ref(t)
    if not t.endswith('>'):
        return []
    out, depth, cur = [], 0, ''
    for c in t[t.index('<') + 1:-1]:
        if c in '<([':
            depth += 1
        elif c in '>)]':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()]


class Interp:
    def __init__(self, prog, opaque=(), resolve=None, maxdepth=14, intr=None, unroll=600, assume=None, pure=(),
                 ctor_opaque=(), maxsteps=400000, charptr=False, recurse=None, peel=False, files=None, extent=None):
        self.P = prog
        self.opaque = set(opaque)
        self.files = files or {}    # texts of the files the code may read
        self.charptr = charptr      # C strings as pointers into their characters
        self.recurse = recurse      # predicate: functions that may be entered recursively (constant recursion)
        self.peel = peel            # peel loops whose exit depends on data (their trip count is bounded by a constant)
        self.nthrow = 0
        self.resolve = resolve or {}
        self.maxdepth = maxdepth
        self.unroll = unroll
        self.trace = []
        self.loops = ()
        self.outer_guards = ()
        self.nframe = 0
        self.ntmp = 0
        self.callseq = {}
        self.verseq = 0
        self.stack = []
        self.lambdas = {}
        self.user_intr = intr or {}
        self.assume = assume or {}
        self.pure = set(pure)
        self.steps = 0
        self.maxsteps = maxsteps
        self.arrdims = {}
        self.at = ('', 0)
        self.cur = None
        self.hooked = 0       # modelled callees consulted so far
        self.extent = {}      # array object -> its dimensions
        for k, n in (extent or {}).items():      # arrays handed to the function
            self.extent[k if isinstance(k, tuple) else (k, ())] = n if isinstance(n, tuple) else (n,)
        self.seqs = set()     # locations used as sequences
        self.maybe = []       # undefined accesses under a condition: (guards, text, place)
        self.raw = set()      # roots of locals declared without an initialiser
        self.quiet = 0
        self.loopinfo = []
        self.touched = []      # stack of sets recording written locations (for loop havoc)
        self.locals = set()
        self.symroots = set()  # roots written through a non-constant index
        self.catch_depth = 0
        self.sizes = {}

    # ------------------------------------------------------------------ entry
    def run(self, fn, args=None, this=None, mem=None):
        """evaluate fn; args default to symbolic arg0.. ; returns (retval, state)"""
        self.entry = fn
        st = State(dict(mem or {}), ())
        fr = self.new_frame(fn)
        fr.this = this if this is not None else ('this', ())
        for i, p in enumerate(fn['params']):
            a = args[i] if args is not None and i < len(args) and args[i] is not None else self.symbolic('arg%d' % i, p['t'])
            self.bind_param(fr, st, p, a)
        if fn.get('ctor'):
            self.run_inits(fr, fn, st)
        out = self.exec(fn['body'], st, fr)
        rets = list(fr.returns)
        if out is not None:
            self.no_value(fn, out, fr)
            rets.append((out.guards, out.mem, VOID))
        self.final = rets
        if not rets:
            return UNDEF, None
        val, mem = self.merge_rets(rets)
        return val, State(mem, ())

    def symbolic(self, name, t):
        s = strip_ref(t)
        if is_ref(t) or not (is_num(s, self.P) or is_bool(s) or is_ptr(t) or is_string(s)):
            if is_ref(t) and is_ptr(t):
                return T.ptr((name, ()))
            return T.ptr((name, ()))
        if is_ptr(t):
            return T.ptr((name, (self.ptrtail(t),)))
        if is_bool(s):
            return Val('bool', T.op('sym', name))
        if is_string(s):
            return Val('sym', name)
        return Poly.sym(name)

    def ptrtail(self, t):
        s = strip_cv(strip_ref(t))
        if '(*' in s:
            return ('i', ZERO)
        inner = strip_cv(s[:-1]) if s.endswith('*') else s
        if is_num(inner, self.P) or is_bool(inner) or inner.endswith('*') or inner == 'void':
            return ('i', ZERO)
        return ('&',)

    def new_frame(self, fn, parent=None):
        self.nframe += 1
        fr = Frame(fn, self.nframe, parent)
        fr.file = self.P.rel(fn) if fn else (parent.file if parent else '')
        fr.name = fn['q'] if fn else (parent.name if parent else '')
        return fr

    def bind_param(self, fr, st, p, a):
        """a: value (scalar), Val('ptr') for references to a location, Val('obj')"""
        t = p['t']
        if is_ref(t):
            if isinstance(a, Val) and a.tag in ('ptr', 'obj'):
                fr.bind[p['d']] = a.a[0]
            else:
                loc = self.tmp('p')
                self.store(st, loc, a)
                fr.bind[p['d']] = loc
        else:
            s = strip_ref(t)
            if isinstance(a, Val) and a.tag == 'obj':
                if is_view(t) or is_smart(t):
                    fr.bind[p['d']] = a.a[0]
                else:
                    loc = self.local(fr, p['d'], p['n'])
                    self.copy_obj(st, loc, a.a[0])
                    fr.bind[p['d']] = loc
            elif isinstance(a, Val) and a.tag == 'ptr' and not (is_smart(t) and a.a[0][1][-1:] == (('&',),)) and not is_ptr(t) and not is_num(s, self.P) and not is_bool(s) and not is_string(s):
                fr.bind[p['d']] = a.a[0]
            else:
                loc = self.local(fr, p['d'], p['n'])
                fr.bind[p['d']] = loc
                self.store(st, loc, a)

    def local(self, fr, d, name=''):
        root = '%s#%d.%s' % (name or 'v', fr.id, d)
        self.locals.add(root)
        return (root, ())

    def tmp(self, name='t'):
        self.ntmp += 1
        root = '%s~%d' % (name, self.ntmp)
        self.locals.add(root)
        return (root, ())

    def is_local(self, loc):
        return loc[0] in self.locals

    # ------------------------------------------------------------------ memory
    def store(self, st, loc, val, node=None, fr=None, quiet=False, kind=None):
        for s in self.touched:
            s.add(loc)
        root, path = loc
        if not self.is_local(loc) and not quiet:
            self.effect('write', st, loc=loc, val=val, node=node, fr=fr, obj=kind)
        if loc[1]:
            self.bounds(st, loc, node, fr, 'write')
        self.put(st, loc, val)

    _addr = False

    def settled(self, st):
        """the statement is certainly executed: not under a condition, a loop of unknown length or a speculative evaluation"""
        return not self.quiet and not self.loops and all(g == TRUE for g in st.guards) and all(g == TRUE for g in self.outer_guards)

    def bounds(self, st, loc, node, fr, what):
        root, path = loc
        for p, x in enumerate(path):
            if x[0] != 'i' or not isinstance(x[1], Poly):
                continue
            base = (root, path[:p])
            ad = self.extent.get(base)
            if ad is not None:
                idx = [y[1].as_int() if y[0] == 'i' and isinstance(y[1], Poly) else None for y in path[p:p + len(ad)]]
                if None in idx:
                    continue
                if len(idx) == len(ad):
                    off, tot = 0, 1
                    for a, n in zip(idx, ad):
                        off, tot = off * n + a, tot * n
                    bad = not 0 <= off < tot
                else:
                    bad = not 0 <= idx[0] < ad[0]
                if bad:
                    self.ub(st, what, 'element %s of an array of %s elements' % ('/'.join(map(str, idx)), 'x'.join(map(str, ad))), base, node, fr)
            elif base in self.seqs:
                k = x[1].as_int()
                n = st.mem.get((root, path[:p] + (('f', '#size'),)))
                n = n.as_int() if isinstance(n, Poly) else None
                if k is not None and n is not None and not 0 <= k < n:
                    self.ub(st, what, 'element %d of a sequence of %d elements' % (k, n), base, node, fr)

    def given(self, x, fr):
        """locals handed to a modelled callee, which may initialise them"""
        if isinstance(x, dict):
            if x.get('k') == 'Ref' and x.get('d') in fr.bind:
                self.raw.discard(fr.bind[x['d']][0])
            for y in x.values():
                if isinstance(y, (dict, list, tuple)):
                    self.given(y, fr)
        elif isinstance(x, (list, tuple)):
            for y in x:
                self.given(y, fr)

    def ub(self, st, what, msg, base, node, fr):
        if not self.settled(st):
            if not self.quiet and not self.loops and len(self.maybe) < 200:
                self.maybe.append((tuple(self.outer_guards) + tuple(st.guards), '%s of %s (%s)' % (what, str(base[0]).split('#')[0], msg), '%s:%s' % (fr.file if fr else self.at[0], (node or {}).get('l', 0) or self.at[1])))
            return
        name = str(base[0]).split('#')[0].split('~')[0] + ''.join('.' + str(c[1]) if c[0] == 'f' else '[]' for c in base[1])
        key = (fr.file if fr else self.at[0], (node or {}).get('l', 0) or self.at[1], what)
        facts.UB.setdefault(key, ('%s of %s (%s)' % (what, name[:80], msg), tuple(self.stack)[-3:]))

    def put(self, st, loc, val):
        if self.charptr and loc[1] and loc[1][-1][0] == 'i':
            p = (loc[0], loc[1][:-1])
            w = st.mem.get(p)
            if isinstance(w, Val) and w.tag == 'str' and isinstance(val, Poly) and val.as_int() is not None and loc[1][-1][1].as_int() is not None:
                i = loc[1][-1][1].as_int()
                if 0 <= i < len(w.a[0]):
                    st.mem[p] = T.strv(w.a[0][:i] + chr(val.as_int() % 256) + w.a[0][i + 1:])
                    return
        mem = st.mem
        if loc in mem:
            del mem[loc]
        # storing a whole aggregate invalidates parts
        mem[loc] = val
        if loc[0] not in self.symroots and not _constpath(loc[1]):
            self.symroots.add(loc[0])

    def drop(self, st, loc):
        root, path = loc
        n = len(path)
        for k in [k for k in st.mem if k[0] == root and len(k[1]) >= n and k[1][:n] == path]:
            del st.mem[k]

    def havoc(self, st, loc, label):
        for s in self.touched:
            s.add((loc[0], loc[1] + (('*',),)))
        self.drop(st, loc)
        st.mem[(loc[0], loc[1] + (('*',),))] = Val('ver', label)

    def copy_obj(self, st, dst, src):
        """aggregate copy"""
        if dst == src:
            return
        self.drop(st, dst)
        if src[0] in self.symroots:
            self.symroots.add(dst[0])
        n = len(src[1])
        add = []
        for k, v in st.mem.items():
            if k[0] == src[0] and len(k[1]) > n and k[1][:n] == src[1]:
                add.append(((dst[0], dst[1] + k[1][n:]), v))
        # fallback for untouched parts
        fb = self.fallback(st, src)
        st.mem[(dst[0], dst[1] + (('*',),))] = fb
        for k, v in add:
            if k[1] == dst[1] + (('*',),):
                continue
            st.mem.pop(k, None)
            st.mem[k] = v
        if src in st.mem:
            st.mem[dst] = st.mem[src]
        for s in self.touched:
            s.add((dst[0], dst[1] + (('*',),)))

    def fallback(self, st, loc):
        """what an untouched part of loc reads as: ('fill', v) | ('from', loc, ver)"""
        root, path = loc
        for n in range(len(path), -1, -1):
            k = (root, path[:n] + (('*',),))
            v = st.mem.get(k)
            if v is not None:
                if v.tag == 'fill':
                    return v
                if v.tag == 'from':
                    sl = v.a[0]
                    return Val('from', (sl[0], sl[1] + path[n:]), v.a[1])
                if v.tag == 'ver':
                    return Val('from', loc, v.a[0])
        return Val('from', loc, '')

    def load(self, st, loc, t):
        root, path = loc
        v = st.mem.get(loc)
        sym_hit = v
        # symbolic indices: walk possible aliases, newest first
        if sym_hit is not None and root not in self.symroots and _constpath(path):
            return v
        idxpos = [i for i, p in enumerate(path) if p[0] == 'i']
        if idxpos:
            v = self.load_idx(st, loc, t, idxpos)
            if v is not None:
                return v
        elif v is not None:
            return v
        return self.initial(st, loc, t)

    def load_idx(self, st, loc, t, idxpos):
        root, path = loc
        n = len(path)
        cands = []
        for k, v in reversed(list(st.mem.items())):
            if k[0] != root:
                continue
            kp = k[1]
            if kp == path:
                cands.append((TRUE, v))
                break
            if kp and kp[-1][0] == '*' and len(kp) <= n + 1 and kp[:-1] == path[:len(kp) - 1] and v.tag == 'forall':
                r = self.match_forall(v, loc)
                if r is not None:
                    cands.append((TRUE, r))
                    break
                continue
            if len(kp) != n:
                continue
            cond = []
            ok = True
            for a, b in zip(kp, path):
                if a == b:
                    continue
                if a[0] == 'i' and b[0] == 'i':
                    c = self.idx_eq(a[1], b[1])
                    if c == FALSE:
                        ok = False
                        break
                    cond.append(c)
                else:
                    ok = False
                    break
            if not ok:
                continue
            c = T.b_and(*cond)
            if c == FALSE:
                continue
            cands.append((c, v))
            if c == TRUE:
                break
        if not cands:
            return self.char_of(st, loc, t)
        if cands[-1][0] == TRUE:
            r = cands[-1][1]
            cands = cands[:-1]
        else:
            r = self.char_of(st, loc, t)
            if r is None:
                r = self.initial(st, loc, t)
            if len(cands) > 120:
                return Poly.atom(('ld', loc, 'amb')) if is_num(t, self.P) else self.typed(('ambig', ()), t)
        for c, v in reversed(cands):
            r = T.ite(c, v, r)
        return r

    def char_of(self, st, loc, t):
        """character of a string held as one value"""
        root, path = loc
        if not path or path[-1][0] != 'i' or 'char' not in t or isinstance(path[-1][1], tuple):
            return None
        s = st.mem.get((root, path[:-1]))
        if not isinstance(s, Val) or s.tag in ('obj', 'ptr', 'undef'):
            return None
        i = path[-1][1]
        k = i.as_int()
        if s.tag == 'str' and k is not None and 0 <= k <= len(s.a[0]):
            return Poly.const(ord(s.a[0][k]) if k < len(s.a[0]) else 0)
        return T.app('charat', s, i)

    def idx_eq(self, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
                return FALSE
            return T.b_and(*[self.idx_eq(x, y) for x, y in zip(a, b)])
        d = a - b if isinstance(a, Poly) and isinstance(b, Poly) else ZERO
        if not d.is_const():
            # subscripts are integers: a difference  g*(..) + c  with g not dividing c is never zero
            g, c0 = 0, 0
            for mono, co in d.m.items():
                if co.denominator != 1:
                    g = 1
                    break
                if mono == ():
                    c0 = co.numerator
                else:
                    g = gcd(g, abs(co.numerator))
            if g > 1 and c0 % g:
                return FALSE
        return T.b_eq(a, b)

    def match_forall(self, fv, loc):
        for binder, count, patpath, val, base in fv.a[0]:
            if patpath == loc[1]:
                for l in self.loops:
                    if l.sym == binder and l.n == count:
                        return val
            # unify a single differing index equal to the binder itself
            if len(patpath) == len(loc[1]):
                cand = None
                ok = True
                for a, b in zip(patpath, loc[1]):
                    if a == b:
                        continue
                    if a[0] == 'i' and b[0] == 'i' and isinstance(a[1], Poly) and a[1] == binder and cand is None and isinstance(b[1], Poly):
                        cand = b[1]
                    else:
                        ok = False
                        break
                if ok and cand is not None:
                    inrange = False
                    for l in self.loops:
                        if l.sym == cand and l.n == count:
                            inrange = True
                    ci, cn = cand.as_int(), count.as_int() if isinstance(count, Poly) else None
                    if ci is not None and cn is not None and 0 <= ci < cn:
                        inrange = True
                    if inrange:
                        def rep(kind, o):
                            if kind == 'atom' and Poly.atom(o) == binder:
                                return cand
                            return None
                        return T.subst(val, rep)
        return None

    def initial(self, st, loc, t):
        fb = self.fallback(st, loc)
        if fb.tag == 'fill':
            v = fb.a[0]
            ts = strip_ref(t)
            if not (is_num(ts, self.P) or is_bool(ts) or ts.endswith('*') or is_string(ts)):
                return self.typed(loc, t, '')
            if v is not None and not (isinstance(v, Val) and v.tag == 'obj'):
                if is_num(t, self.P) and not isinstance(v, Poly):
                    return T.to_num(v)
                return v
            return self.typed(loc, t, '')
        l, ver = fb.a
        if self.is_local(l) and l[1] == () and ver == '' and not self.assume.get(l):
            # uninitialised local scalar
            if is_num(t, self.P) or is_bool(t) or is_ptr(t):
                return UNDEF if not is_num(t, self.P) else Poly.atom(('ld', l, 'uninit'))
        r = self.typed(l, t, ver)
        if isinstance(r, Val) and r.tag == 'obj' and r.a[0] == l:
            return Val('obj', loc)
        return r

    def typed(self, loc, t, ver=''):
        hook = self.assume.get(loc) if ver == '' else None
        if hook is not None:
            return hook
        s = strip_ref(t)
        if is_bool(s):
            return Val('bool', Val('ld', loc, ver))
        if is_num(s, self.P):
            return Poly.atom(('ld', loc, ver))
        if s.endswith('*'):
            return T.ptr((loc[0], loc[1] + (('f', '*' + ('@%s' % ver if ver else '')), self.ptrtail(s))))
        if is_string(s):
            return Val('ld', loc, ver)
        if arr_dims(s):
            return T.ptr((loc[0], loc[1] + (('i', ZERO),)))
        if '(*)' in s or s.startswith('std::function'):
            return Val('ld', loc, ver)
        return Val('obj', loc)

    # ------------------------------------------------------------------ effects
    def effect(self, kind, st, node=None, fr=None, **kw):
        if kind in ('throw', 'call'):
            self.nthrow += 1
        if self.quiet:
            return None
        e = Effect(kind, guards=tuple(g for g in self.outer_guards + st.guards if g != TRUE), loops=self.loops,
                   line=(node or {}).get('l', 0), file=fr.file if fr else '', stack=tuple(self.stack), node=node, **kw)
        e.seq = len(self.trace)
        e.in_catch = self.catch_depth
        self.trace.append(e)
        return e

    # ------------------------------------------------------------------ merging
    def merge2(self, c, ma, mb):
        if c == TRUE:
            return ma
        if c == FALSE:
            return mb
        out = {}
        keys = list(ma)
        sb = set(ma)
        keys += [k for k in mb if k not in sb]
        for k in keys:
            a = ma.get(k)
            b = mb.get(k)
            if a is b or a == b:
                out[k] = a
                continue
            if k[1] and k[1][-1][0] == '*':
                if a is not None and b is not None and a.tag == 'forall' or b is not None and b.tag == 'forall':
                    out[k] = Val('ver', 'phi')
                    continue
                if a is None or b is None:
                    out[k] = a if b is None else b
                    x = out[k]
                    # one-sided havoc / fill: unknown afterwards unless the other side never had it (a local born there)
                    continue
                out[k] = Val('ver', 'phi(%s)' % T.vstr(c))
                continue
            if a is None or b is None:
                m = mb if a is None else ma
                x = b if a is None else a
                stt = State(ma if a is None else mb, ())
                if self.is_local(k) and not k[1]:
                    out[k] = x          # born in one branch
                    continue
                o = self.other(stt, k, x)
                out[k] = T.ite(c, o, x) if a is None else T.ite(c, x, o)
                continue
            out[k] = T.ite(c, a, b) if not isinstance(a, Val) or a.tag not in ('fill', 'from', 'ver', 'forall') else a
        return out

    def other(self, st, loc, like):
        if isinstance(like, Poly):
            t = 'double'
        elif T._isbool(like):
            t = 'bool'
        elif like.tag == 'ptr':
            t = 'void *'
        elif like.tag == 'obj':
            t = 'class'
        else:
            t = 'std::basic_string<char>'
        return self.load(st, loc, t)

    def merge_states(self, base_guards, states):
        """states: list of State in program order (disjoint guards)"""
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        n = len(base_guards)
        cur = states[-1]
        mem = cur.mem
        gs = [T.b_and(*cur.guards[n:])]
        for s in reversed(states[:-1]):
            c = T.b_and(*s.guards[n:])
            mem = self.merge2(c, s.mem, mem)
            gs.append(c)
        g = T.b_or(*gs)
        return State(mem, base_guards + ((g,) if g != TRUE else ()))

    def merge_rets(self, rets, n=0):
        val = rets[-1][2]
        mem = rets[-1][1]
        for g, m, v in reversed(rets[:-1]):
            c = T.b_and(*g[n:])
            mem = self.merge2(c, m, mem)
            if v is not VOID or val is not VOID:
                val = T.ite(c, v, val) if not (v is VOID or val is VOID) else val
        return val, mem

    # ------------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        if s is None or st is None:
            return st
        self.steps += 1
        if s.get('l'):
            self.at = (fr.file, s['l'])
        if self.steps > self.maxsteps:
            raise AnalysisError('step budget exceeded in %s' % (self.entry['q'],))
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise AnalysisError('statement kind %s not modelled (%s:%s)' % (k, fr.file, s.get('l')))
        return m(s, st, fr)

    def s_Block(self, s, st, fr):
        for c in s['s']:
            st = self.exec(c, st, fr)
            if st is None:
                return None
        return st

    def s_Null(self, s, st, fr):
        return st

    def s_Expr(self, s, st, fr):
        e = s['e']
        if e['k'] == 'Throw':
            self.throw(e, st, fr)
            return None
        self.rv(e, st, fr)
        if getattr(st, 'guards', None) and FALSE in st.guards:
            return None
        if self._noret:
            self._noret = False
            return None
        return st

    _noret = False

    def throw(self, e, st, fr):
        v = None
        q = ''
        if e.get('e'):
            q = strip_cv(e['e'].get('t', ''))
            v = self.rv(e['e'], st, fr)
        self.effect('throw', st, node=e, fr=fr, val=v, q=q)

    def s_Decl(self, s, st, fr):
        for v in s['v']:
            self.decl(v, st, fr)
        return st

    def decl(self, v, st, fr, val=None):
        t = v['t']
        if v.get('static'):
            loc = ('static:' + v['q'], ())
            fr.bind[v['d']] = loc
            return
        if is_ref(t):
            if val is not None:
                if isinstance(val, Val) and val.tag in ('ptr', 'obj'):
                    fr.bind[v['d']] = val.a[0]
                    return
                loc = self.tmp(v['n'])
                self.store(st, loc, val)
                fr.bind[v['d']] = loc
                return
            fr.bind[v['d']] = self.lv(v['init'], st, fr)
            return
        loc = self.local(fr, v['d'], v['n'])
        if val is None and v.get('init') is not None:
            ini = v['init']
            self.init_into(loc, t, ini, st, fr, v['d'])
            if v['d'] not in fr.bind or fr.bind[v['d']] == loc:
                fr.bind[v['d']] = loc
            return
        fr.bind[v['d']] = loc
        self.drop(st, loc)
        if val is None:
            ad = arr_dims(strip_ref(t))
            if ad:
                self.extent[loc] = ad[1]
            b = ad[0] if ad else strip_ref(t)
            if is_num(b, self.P) or is_bool(b) or is_ptr(b):
                self.raw.add(loc[0])
        if val is not None:
            self.assign_val(st, loc, t, val)

    def assign_val(self, st, loc, t, val, node=None, fr=None):
        if isinstance(val, Val) and val.tag == 'obj':
            if not self.is_local(loc):
                self.effect('write', st, loc=loc, val=val, node=node, fr=fr, obj='aggregate')
            self.copy_obj(st, loc, val.a[0])
        else:
            self.store(st, loc, val, node=node, fr=fr)

    def init_into(self, loc, t, ini, st, fr, d=None):
        """initialise storage loc of type t from initialiser expression"""
        s = strip_ref(t)
        self.drop(st, loc)
        if d is not None:
            fr.bind[d] = loc
        for x in self.touched:
            x.add(loc)
        k = ini['k']
        ad = arr_dims(s)
        if ad:
            self.arrdims[loc] = ad[1]
            self.extent[loc] = ad[1]
            if k == 'Init':
                self.init_list(loc, s, ini, st, fr)
            elif k == 'Ctor':
                pass
            elif k == 'Str':
                self.put(st, loc, T.strv(ini['v']))
            elif k == 'Zero':
                st.mem[(loc[0], loc[1] + (('*',),))] = Val('fill', ZERO)
            return
        if k == 'Ctor' and not (is_string(s)):
            if (is_view(t) or is_smart(t)) and len(ini['args']) >= 1 and ini.get('copy'):
                src = self.lv(ini['args'][0], st, fr)
                if d is not None:
                    fr.bind[d] = src
                    return
                self.copy_obj(st, loc, src)
                return
            self.construct(loc, ini, st, fr)
            return
        if k == 'Init' and not is_num(s, self.P) and not is_bool(s) and not s.endswith('*'):
            self.init_list(loc, s, ini, st, fr)
            return
        v = self.rv(ini, st, fr)
        if isinstance(v, Val) and v.tag == 'obj' and d is not None and (is_view(t) or is_smart(t) or v.a[0][0] in self.locals and '~' in str(v.a[0][0])):
            fr.bind[d] = v.a[0]
            return
        if isinstance(v, Val) and v.tag == 'obj':
            self.copy_obj(st, loc, v.a[0])
        elif isinstance(v, Val) and v.tag in ('lambda',):
            self.put(st, loc, v)
        else:
            if (v is VOID or v is UNDEF) and is_num(s, self.P):
                v = UNDEF
            self.put(st, loc, v)

    def init_list(self, loc, t, ini, st, fr):
        args = ini['args']
        ad = arr_dims(t)
        if ad:
            base, dims = ad
            sub = base + ''.join('[%d]' % x for x in dims[1:])
            st.mem[(loc[0], loc[1] + (('*',),))] = Val('fill', ZERO)
            for i, a in enumerate(args):
                el = (loc[0], loc[1] + (('i', Poly.const(i)),))
                self.init_into(el, sub, a, st, fr)
            return
        if strip_ref(t).startswith('std::array<'):
            st.mem[(loc[0], loc[1] + (('*',),))] = Val('fill', ZERO)
            if len(args) == 1 and args[0]['k'] == 'Init':
                args = args[0]['args']
            for i, a in enumerate(args):
                el = (loc[0], loc[1] + (('i', Poly.const(i)),))
                self.init_into(el, a.get('t', 'double'), a, st, fr)
            return
        rec = self.P.records.get(strip_ref(t))
        if rec:
            for f, a in zip(rec['fields'], args):
                self.init_into((loc[0], loc[1] + (('f', f['n']),)), f['t'], a, st, fr)
            return
        for i, a in enumerate(args):
            el = (loc[0], loc[1] + (('i', Poly.const(i)),))
            self.init_into(el, a.get('t', 'double'), a, st, fr)
        self.put(st, (loc[0], loc[1] + (('f', '#size'),)), Poly.const(len(args)))

    def construct(self, loc, node, st, fr):
        """run a constructor expression on storage loc"""
        q = node['q']
        args = node['args']
        t = node['t']
        s = strip_ref(t)
        star = (loc[0], loc[1] + (('*',),))
        if q in ('std::vector', 'std::array', 'std::valarray', 'std::deque', 'std::basic_string') or q.startswith('std::vector'):
            self.drop(st, loc)
            real = [a for a in args if not a.get('defarg')]
            if not real:
                if not s.startswith('std::array<'):
                    self.put(st, (loc[0], loc[1] + (('f', '#size'),)), ZERO)
                return
            a0 = real[0]
            if node.get('copy'):
                v = self.rv(a0, st, fr)
                if isinstance(v, Val) and v.tag in ('obj', 'ptr'):
                    self.copy_obj(st, loc, v.a[0])
                return
            if a0['k'] == 'Init' or (len(real) >= 1 and 'initializer_list' in a0.get('t', '')):
                self.init_list(loc, 'list', a0, st, fr)
                return
            v = self.rv(a0, st, fr)
            if isinstance(v, Poly):
                self.put(st, (loc[0], loc[1] + (('f', '#size'),)), v)
                fill = ZERO
                if len(real) > 1:
                    fill = self.rv(real[1], st, fr)
                else:
                    elt = self.elem_type(s)
                    if elt and not (is_num(elt, self.P) or is_bool(elt) or is_ptr(elt)):
                        fill = None
                        st.mem[star] = Val('fill', None)
                        k = v.as_int()
                        if k is not None and k <= 128 and strip_ref(elt).startswith(('std::map<', 'std::set<', 'std::unordered_map<', 'std::unordered_set<')):
                            for i in range(k):
                                self.value_init(st, (loc[0], loc[1] + (('i', Poly.const(i)),)), elt)
                        return
                    if elt and is_bool(elt):
                        fill = FALSE
                if isinstance(fill, Val) and fill.tag == 'obj':
                    src = fill.a[0]
                    fs = st.mem.get((src[0], src[1] + (('f', '#size'),)))
                    ff = st.mem.get((src[0], src[1] + (('*',),)))
                    st.mem[star] = ff if ff is not None and ff.tag == 'fill' else Val('fill', None)
                    if fs is not None:
                        st.mem[(loc[0], loc[1] + (('f', '#elsize'),))] = fs
                    return
                st.mem[star] = Val('fill', fill)
                return
            # iterator range
            if isinstance(v, Val) and v.tag == 'iter' and len(real) > 1:
                w = self.rv(real[1], st, fr)
                if isinstance(w, Val) and w.tag == 'iter' and w.a[0] == v.a[0] and v.a[1] == ZERO:
                    self.copy_obj(st, loc, v.a[0])
                    self.put(st, (loc[0], loc[1] + (('f', '#size'),)), w.a[1])
                    return
            if isinstance(v, Val) and v.tag in ('ptr', 'iter') and len(real) > 1:
                from . import intrinsics as X
                w = self.rv(real[1], st, fr)
                xs = X.elements(self, st, v, w) if isinstance(w, Val) and w.tag == v.tag else None
                if xs is not None:
                    for i, x in enumerate(xs):
                        el = (loc[0], loc[1] + (('i', Poly.const(i)),))
                        if isinstance(x, Val) and x.tag == 'obj':
                            self.copy_obj(st, el, x.a[0])
                        else:
                            X.put_key(self, st, el, x)
                    self.put(st, (loc[0], loc[1] + (('f', '#size'),)), Poly.const(len(xs)))
                    return
                if v.tag == 'ptr':
                    self.put(st, loc, T.op('range', v, w))
                    return
            for a in real[1:]:
                self.rv(a, st, fr)
            return
        if q in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::list', 'std::queue', 'std::stack') and not [a for a in args if not a.get('defarg')]:
            self.drop(st, loc)
            st.mem[star] = Val('fill', None)
            self.put(st, (loc[0], loc[1] + (('f', '#size'),)), ZERO)
            if q in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
                self.put(st, (loc[0], loc[1] + (('f', '#keys'),)), Val('keys'))
            return
        if q == 'std::pair' and len(args) == 2 and not node.get('copy'):
            m = split_targs(s)
            self.drop(st, loc)
            for i, n in enumerate(('first', 'second')):
                self.init_into((loc[0], loc[1] + (('f', n),)), m[i] if len(m) == 2 else args[i].get('t', ''), args[i], st, fr)
            return
        if q in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set') and args and args[0]['k'] == 'Init':
            from . import intrinsics as X
            self.drop(st, loc)
            st.mem[star] = Val('fill', None)
            X.set_keys(self, st, loc, [])
            for a in args[0]['args']:
                if q.endswith('map'):
                    b = self.lv(a, st, fr)
                    kk = self.load(st, (b[0], b[1] + (('f', 'first'),)), 'std::basic_string<char>')
                    if X.add_key(self, st, loc, kk) == TRUE:
                        continue
                    el = (loc[0], loc[1] + (('i', kk),))
                    vl = (b[0], b[1] + (('f', 'second'),))
                    if vl in st.mem:
                        self.put(st, el, st.mem[vl])
                    else:
                        self.copy_obj(st, el, vl)
                else:
                    X.add_key(self, st, loc, self.rv(a, st, fr))
                    for i, x in enumerate(X.keys_of(st, loc) or ()):
                        self.put(st, (loc[0], loc[1] + (('i', Poly.const(i)),)), x)
            return
        if q in ('std::unique_ptr', 'std::shared_ptr'):
            self.drop(st, loc)
            real = [a for a in args if not a.get('defarg')]
            if not real:
                self.put(st, loc, Val('null'))
                return
            v = self.rv(real[0], st, fr)
            if isinstance(v, Val) and v.tag == 'obj':
                self.copy_obj(st, loc, v.a[0])
                w = st.mem.get(v.a[0])
                if w is not None:
                    self.put(st, loc, w)
                else:
                    self.put(st, loc, self.typed(v.a[0], 'void *', ''))
            else:
                self.put(st, loc, v)
            return
        if node.get('copy') and len(args) >= 1:
            v = self.rv(args[0], st, fr)
            if isinstance(v, Val) and v.tag in ('obj', 'ptr'):
                self.copy_construct(loc, s, v.a[0], st, fr, node)
                return
            self.put(st, loc, v)
            return
        f = self.P.functions.get(node['fn'])
        if f is not None and q not in self.opaque and node['fn'] not in self.opaque and len(self.stack) < self.maxdepth:
            self.drop(st, loc)
            if not any(True for _ in ()):
                st.mem[star] = Val('fill', None) if False else st.mem.get(star, Val('from', loc, ''))
                if st.mem[star].tag == 'from':
                    del st.mem[star]
            vals = self.args(node, f, st, fr)
            self.inline(f, vals, loc, st, fr, node)
            return
        # opaque constructor
        vals = [self.rv(a, st, fr) for a in args if not a.get('defarg')]
        if args or f is not None:
            if not self.trivial_ctor(q):
                self.effect('call', st, node=node, fr=fr, q=q + '::' + q.split('::')[-1], fn=node['fn'], obj=Val('obj', loc), args=vals)
        self.drop(st, loc)
        from . import intrinsics as X
        if X.is_stream_cls(q + '<'):
            X.stream_init(self, st, loc, vals, q)
        elif len(vals) == 1 and 'iterator' in q.split('::')[-1]:
            self.put(st, loc, vals[0])
        elif vals:
            self.put(st, loc, T.op('new:' + q, *vals))
        elif f is None and self.P.records.get(s) is None:
            self.put(st, loc, T.op('new:' + q))

    def user_copy(self, t):
        """the copy constructor written for class t, if any"""
        c = self.__dict__.setdefault('_ucopy', {})
        if t not in c:
            c[t] = None
            r = self.P.records.get(t)
            if r is not None:
                q = r['q'] + '::' + r['q'].split('::')[-1]
                for f in self.P.fns(q):
                    if f.get('ctor') and len(f['params']) == 1 and is_ref(f['params'][0]['t']) and strip_ref(f['params'][0]['t']) == t and not f['params'][0]['t'].rstrip().endswith('&&'):
                        c[t] = f
        return c[t]

    def has_user_copy(self, t, depth=0):
        if self.user_copy(t):
            return True
        r = self.P.records.get(t)
        return r is not None and depth < 4 and any(self.has_user_copy(strip_ref(f['t']), depth + 1) for f in r['fields'])

    def copy_construct(self, loc, t, src, st, fr, node):
        f = self.user_copy(t)
        if f is not None and f['q'] not in self.opaque and len(self.stack) < self.maxdepth:
            self.drop(st, loc)
            self.inline(f, [T.ptr(src)], loc, st, fr, node)
            return
        self.copy_obj(st, loc, src)
        r = self.P.records.get(t)
        if r is not None and self.has_user_copy(t):
            for x in r['fields']:
                ft = strip_ref(x['t'])
                if self.has_user_copy(ft):
                    p = (('f', x['n']),)
                    self.copy_construct((loc[0], loc[1] + p), ft, (src[0], src[1] + p), st, fr, node)

    def value_init(self, st, loc, t):
        """a value-initialised element of a container"""
        t = strip_ref(t)
        if t.startswith(('std::map<', 'std::set<', 'std::unordered_map<', 'std::unordered_set<')):
            st.mem[(loc[0], loc[1] + (('*',),))] = Val('fill', None)
            self.put(st, (loc[0], loc[1] + (('f', '#size'),)), ZERO)
            self.put(st, (loc[0], loc[1] + (('f', '#keys'),)), Val('keys'))
        elif t.startswith(('std::vector<', 'std::deque<', 'std::list<')):
            self.put(st, (loc[0], loc[1] + (('f', '#size'),)), ZERO)
        elif is_string(t):
            self.put(st, loc, T.strv(''))
        elif is_bool(t):
            self.put(st, loc, FALSE)
        elif is_num(t, self.P):
            self.put(st, loc, ZERO)
        elif is_ptr(t) or t.startswith(('std::shared_ptr<', 'std::unique_ptr<')):
            self.put(st, loc, Val('null'))

    make_runs = False

    def ctor_of(self, t, args):
        """the constructor of class t a call with these arguments selects, when arity (and, failing that, the argument types) decide it"""
        r = self.P.records.get(strip_ref(t))
        if r is None:
            return None
        q = r['q'] + '::' + r['q'].split('::')[-1]
        n = len(args)
        fs = list(self.P.fns(q))
        if '<' in t:
            pre = strip_ref(t) + '::' + r['q'].split('::')[-1] + ' :'
            fs += [f for f in self.P.functions.values() if f.get('ctor') and f['key'].startswith(pre) and f not in fs]
        c = []
        for f in fs:
            ps = f['params']
            need = len([p for p in ps if p.get('def') is None])
            if f.get('ctor') and need <= n <= len(ps) and not (len(ps) == 1 and strip_ref(ps[0]['t']) == strip_ref(t)) and ('<' not in t or strip_ref(t) in f.get('key', '') or f.get('cls') == strip_ref(t)):
                c.append(f)
        if len(c) > 1:
            num = lambda x: is_num(x, self.P) or is_bool(x)
            c2 = [f for f in c if all(strip_ref(p['t']) == strip_ref(a.get('t', '')) for p, a in zip(f['params'], args))]
            c = c2 or [f for f in c if all(strip_ref(p['t']) == strip_ref(a.get('t', '')) or num(strip_ref(p['t'])) and num(strip_ref(a.get('t', ''))) for p, a in zip(f['params'], args))]
        return c[0] if len(c) == 1 and len(c[0]['params']) == n else None

    def emplace(self, loc, t, args, st, fr, node):
        """construct an object of class t at loc from the arguments of make_shared, make_unique or emplace_back"""
        f = self.ctor_of(t, args)
        if f is None or f['key'] in self.opaque or f['q'] in self.opaque or len(self.stack) >= self.maxdepth:
            return False
        self.drop(st, loc)
        vals = [self.arg(a, p['t'], st, fr) for a, p in zip(args, f['params'])]
        self.inline(f, vals, loc, st, fr, node)
        return True

    def trivial_ctor(self, q):
        return q.startswith('std::') and q not in ('std::ifstream', 'std::basic_ifstream', 'std::basic_ofstream')

    def elem_type(self, s):
        m = re.match(r'^std::(?:vector|array|valarray|deque|set|initializer_list)<(.*)>$', s)
        if not m:
            return None
        depth = 0
        out = ''
        for c in m.group(1):
            if c in '<([':
                depth += 1
            elif c in '>)]':
                depth -= 1
            if c == ',' and depth == 0:
                break
            out += c
        return out.strip()

    def run_inits(self, fr, fn, st):
        for i in fn.get('inits', ()):
            e = i['e']
            if 'field' in i:
                loc = (fr.this[0], fr.this[1] + (('f', i['field']),))
                ft = i['ft']
                if is_ref(ft):
                    l = self.lv(e, st, fr)
                    self.put(st, loc, T.ptr(l))
                    continue
                before = self.is_local(loc)
                self.init_into(loc, ft, e, st, fr)
                if not before:
                    v = st.mem.get(loc)
                    if v is not None:
                        self.effect('write', st, loc=loc, val=v, node=e, fr=fr, obj='init')
            else:
                if e['k'] == 'Ctor':
                    f = self.P.functions.get(e['fn'])
                    if f is not None and len(self.stack) < self.maxdepth:
                        vals = self.args(e, f, st, fr)
                        self.inline(f, vals, fr.this, st, fr, e)
                    else:
                        [self.rv(a, st, fr) for a in e['args']]

    def s_If(self, s, st, fr):
        if s.get('init'):
            st = self.exec(s['init'], st, fr)
        if s.get('cvar'):
            self.decl(s['cvar'], st, fr)
        c = T.to_bool(self.rv(s['c'], st, fr))
        c = self.simplify(c, st)
        if c == TRUE:
            return self.exec(s['a'], st, fr)
        if c == FALSE:
            return self.exec(s['b'], st, fr) if s.get('b') else st
        n = len(st.guards)
        sa = self.exec(s['a'], st.fork(c), fr)
        sb = st.fork(T.b_not(c))
        if s.get('b'):
            sb = self.exec(s['b'], sb, fr)
        if sa is None:
            return sb
        if sb is None:
            return sa
        # both continue
        ga = T.b_and(*sa.guards[n:])
        gb = T.b_and(*sb.guards[n:])
        mem = self.merge2(c, sa.mem, sb.mem)
        g = T.b_or(ga, gb)
        return State(mem, st.guards + ((g,) if g != TRUE else ()))

    def simplify(self, c, st):
        """drop what the current guards already decide"""
        if c in (TRUE, FALSE):
            return c
        gs = set()
        for g in self.outer_guards + st.guards:
            if g.tag == 'and':
                gs |= g.a[0]
            else:
                gs.add(g)
        if c in gs:
            return TRUE
        n = T.b_not(c)
        if n in gs:
            return FALSE
        # two different constants of the same value: x==1 known, asking x==2
        if c.tag in ('eq', 'eq0'):
            for g in gs:
                if g.tag == c.tag and self.disjoint_eq(g, c):
                    return FALSE
        return c

    def disjoint_eq(self, g, c):
        if g.tag == 'eq':
            for x, y in ((0, 1), (1, 0)):
                for u, w in ((0, 1), (1, 0)):
                    if g.a[x] == c.a[u] and T._isconst(g.a[y]) and T._isconst(c.a[w]) and g.a[y] != c.a[w]:
                        return True
            return False
        d = g.a[0] - c.a[0]
        if d.is_const() and d.cval() != 0:
            return True
        d = g.a[0] + c.a[0]
        return d.is_const() and d.cval() != 0

    def s_Switch(self, s, st, fr):
        v = self.rv(s['c'], st, fr)
        # flatten
        items = []

        def flat(x):
            if x is None:
                return
            if x['k'] == 'Block':
                for y in x['s']:
                    flat(y)
            elif x['k'] in ('Case', 'Default'):
                items.append(x)
                flat_sub(x['s'])
            else:
                items.append(x)

        def flat_sub(x):
            if x is not None and x['k'] in ('Case', 'Default'):
                flat(x)
            elif x is not None:
                items.append(x)
        body = s['body']
        if body['k'] == 'Block':
            for y in body['s']:
                flat(y)
        else:
            flat(body)
        conds = []
        for x in items:
            if x['k'] == 'Case':
                cv = Poly.const(int(x['cv'])) if 'cv' in x else self.rv(x['c'], st, fr)
                conds.append(T.b_eq(T.to_num(v), T.to_num(cv)))
        hasdef = any(x['k'] == 'Default' for x in items)
        nocase = T.b_and(*[T.b_not(c) for c in conds])
        base = st.guards
        ctl = Ctl('switch', base)
        fr.ctl.append(ctl)
        cur = None
        ci = 0
        entry = st
        for x in items:
            if x['k'] in ('Case', 'Default'):
                if x['k'] == 'Case':
                    c = conds[ci]
                    ci += 1
                else:
                    c = nocase
                c = self.simplify(c, entry)
                if c != FALSE:
                    ns = entry.fork(c)
                    cur = ns if cur is None else self.merge_states(base, [cur, ns])
                continue
            if cur is not None:
                cur = self.exec(x, cur, fr)
        fr.ctl.pop()
        outs = list(ctl.breaks)
        if cur is not None:
            outs.append(cur)
        if not hasdef:
            nc = self.simplify(nocase, entry)
            if nc != FALSE:
                outs.append(entry.fork(nc))
        if not outs:
            return None
        r = self.merge_states(base, outs)
        return r

    def s_Break(self, s, st, fr):
        for c in reversed(fr.ctl):
            c.breaks.append(st)
            return None
        raise AnalysisError('break outside')

    def s_Continue(self, s, st, fr):
        for c in reversed(fr.ctl):
            if c.kind == 'loop':
                c.conts.append(st)
                return None
        raise AnalysisError('continue outside')

    def s_Return(self, s, st, fr):
        v = VOID
        if s.get('v'):
            rt = fr.fn.get('rt', '') if fr.fn else ''
            if fr.fn and is_ref(rt):
                l = self.lv(s['v'], st, fr)
                v = T.ptr(l)
            else:
                v = self.rv(s['v'], st, fr)
        if self._noret:
            self._noret = False
            return None
        fr.returns.append((st.guards, st.mem, v))
        return None

    def s_Try(self, s, st, fr):
        base = st.guards
        entry = st.fork()
        self.catch_depth += 1
        n0 = self.nthrow
        b0 = self.steps
        nr = len(fr.returns)
        out = self.exec(s['body'], st.fork(), fr)
        self.catch_depth -= 1
        if self.nthrow == n0 and (out is not None or len(fr.returns) > nr):
            return out          # nothing in the body can throw
        outs = [out] if out is not None else []
        for i, h in enumerate(s['h']):
            c = T.op('caught', T.strv('%s:%s' % (fr.file, s.get('l'))), Poly.const(i))
            c = Val('bool', c)
            if out is None and len(fr.returns) == nr and len(s['h']) == 1 and not h.get('var'):
                c = TRUE        # the body never completes, and one handler takes everything
            hs = entry.fork(c) if c != TRUE else entry.fork()
            if h.get('var'):
                loc = self.local(fr, h['var']['d'], h['var']['n'])
                fr.bind[h['var']['d']] = loc
            o = self.exec(h['body'], hs, fr)
            if o is not None:
                outs.insert(0, o)
        if not outs:
            return None
        if len(outs) == 1:
            o = outs[0]
            return o
        return self.merge_states(base, outs)

    # ---- loops
    def assigned(self, *nodes):
        """declaration ids that may be modified (syntactic over-approximation)"""
        out = set()

        def base_ref(e):
            while e is not None:
                if e['k'] == 'Ref':
                    return e.get('d')
                if e['k'] in ('Idx', 'Mem'):
                    e = e['b']
                elif e['k'] in ('Un', 'Cast'):
                    e = e['e']
                elif e['k'] == 'Call' and e.get('obj') is not None:
                    e = e['obj']
                elif e['k'] == 'Cond':
                    out.add(base_ref(e['a']))
                    e = e['b']
                else:
                    return None
            return None

        def rec(x):
            if isinstance(x, list):
                for y in x:
                    rec(y)
                return
            if not isinstance(x, dict):
                return
            k = x.get('k')
            if k == 'Bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                out.add(base_ref(x['a']))
            elif k == 'Un' and ('++' in x['op'] or '--' in x['op'] or x['op'] == '&'):
                out.add(base_ref(x['e']))
            elif k == 'Call':
                if x.get('obj') is not None and not x.get('cm'):
                    out.add(base_ref(x['obj']))
                pt, _ = fn_params(x['fn']) if x.get('fn') else ([], '')
                for i, a in enumerate(x['args']):
                    t = pt[i] if i < len(pt) else '&'
                    if (is_ref(t) or is_ptr(t)) and not t.startswith('const '):
                        out.add(base_ref(a))
                    elif not is_ref(t) and (is_ptr(t)):
                        out.add(base_ref(a))
            elif k == 'Lambda':
                rec(x['body'])
                return
            for v in x.values():
                if isinstance(v, (dict, list)):
                    rec(v)
        for n in nodes:
            rec(n)
        out.discard(None)
        return out

    def s_For(self, s, st, fr):
        if s.get('init'):
            st = self.exec(s['init'], st, fr)
        return self.loop(s, st, fr, s.get('c'), s['body'], s.get('inc'), False)

    def s_While(self, s, st, fr):
        return self.loop(s, st, fr, s['c'], s['body'], None, False)

    def s_Do(self, s, st, fr):
        # do B while(c)  ==  B; while(c) B   (break/continue handled as loop body of the first round)
        ctl = Ctl('loop', st.guards)
        fr.ctl.append(ctl)
        base = st.guards
        o = self.exec(s['body'], st, fr)
        fr.ctl.pop()
        o = self.merge_states(base, ctl.conts + ([o] if o is not None else []))
        if o is None:
            return self.merge_states(base, ctl.breaks)
        o = self.loop(s, o, fr, s['c'], s['body'], None, False)
        return self.merge_states(base, ctl.breaks + ([o] if o is not None else []))

    def loop(self, s, st, fr, cond, body, inc, _):
        base = st.guards
        # try constant unrolling
        exits = []
        cur = st
        n = 0
        first = True
        roots = mark = None
        while True:
            if cur is None:
                break
            if n >= 4 and self.settled(cur):
                # the same state twice, with nothing but modelled memory consulted in between: the loop never ends
                if roots is None:
                    roots = {k[0] for k in cur.mem}
                now = ({k: v for k, v in cur.mem.items() if k[0] in roots}, self.hooked) if n & (n - 1) == 0 or mark is not None and n <= 4096 else None
                if mark is not None and now is not None and now == mark:
                    self.ub(cur, 'loop', 'its state repeats, so it never terminates', ('loop', ()), s, fr)
                    raise AnalysisError('loop at %s:%s never terminates' % (fr.file, s.get('l')))
                if n & (n - 1) == 0:
                    mark = now
            if cond is None:
                c = TRUE
            else:
                if first:
                    # peek without side effects on the trace
                    probe = cur.fork()
                    self.quiet += 1
                    snap = self.snap()
                    c = self.simplify(T.to_bool(self.rv(cond, probe, fr)), probe)
                    self.restore(snap)
                    self.quiet -= 1
                    if c in (TRUE, FALSE) and cond.get('k') != 'Bool':
                        c = self.simplify(T.to_bool(self.rv(cond, cur, fr)), cur)
                else:
                    c = self.simplify(T.to_bool(self.rv(cond, cur, fr)), cur)
            if first and self.peel and c not in (TRUE, FALSE):
                c = self.simplify(T.to_bool(self.rv(cond, cur, fr)), cur)
            elif first and (c not in (TRUE, FALSE) or cond is None or cond.get('k') == 'Bool'):
                return self.sym_loop(s, st, fr, cond, body, inc)
            first = False
            if c == FALSE:
                exits.append(cur)
                break
            if c != TRUE:
                # trip count stopped being constant (data dependent exit): peel with a guard
                if n > 64:
                    raise AnalysisError('loop at %s:%s not bounded' % (fr.file, s.get('l')))
                exits.append(cur.fork(T.b_not(c)))
                cur = cur.fork(c)
            n += 1
            if n > self.unroll:
                if cond is not None:
                    return self.sym_loop(s, st, fr, cond, body, inc)
                raise AnalysisError('loop at %s:%s exceeds unroll bound' % (fr.file, s.get('l')))
            ctl = Ctl('loop', cur.guards)
            fr.ctl.append(ctl)
            o = self.exec(body, cur, fr)
            fr.ctl.pop()
            exits.extend(ctl.breaks)
            o = self.merge_states(base, ctl.conts + ([o] if o is not None else []))
            if o is not None and inc is not None:
                self.rv(inc, o, fr)
            cur = o
        return self.merge_states(base, exits)

    def snap(self):
        return (self.ntmp, self.nframe, dict(self.callseq), self.verseq, self._noret)

    def restore(self, s):
        self.ntmp, self.nframe, self.callseq, self.verseq, self._noret = s[0], s[1], s[2], s[3], s[4]

    def binder(self):
        return Poly.sym('$k%d' % (len(self.loops) + 1))

    def scan_havoc(self, st, fr, run):
        """collect the locations written by one evaluation of the body (effects suppressed)"""
        self.quiet += 1
        snap = self.snap()
        rets = len(fr.returns)
        self.touched.append(set())
        try:
            run(st.fork())
        finally:
            t = self.touched.pop()
            self.quiet -= 1
            self.restore(snap)
            del fr.returns[rets:]
        return t

    def sym_loop(self, s, st, fr, cond, body, inc, par=False, kind='loop'):
        base = st.guards
        k = self.binder()
        depth = len(self.loops)
        asg = self.assigned(cond, body, inc)
        # scalars that may vary
        havoc = {}
        for d in asg:
            loc = fr.bind.get(d)
            if loc is None:
                continue
            v = st.mem.get(loc)
            if v is not None and not (isinstance(v, Val) and v.tag in ('lambda',)):
                havoc[loc] = v
        touched = None
        plan = {}
        for attempt in range(3):
            st1 = st.fork()
            marks = {}
            for loc, v in havoc.items():
                if loc in plan:
                    st1.mem.pop(loc, None)
                    st1.mem[loc] = plan[loc]
                    continue
                m = self.marker(loc, v, depth)
                marks[loc] = m
                st1.mem.pop(loc, None)
                st1.mem[loc] = m
            # memory written inside: first find it
            saved = self.loops
            lp = Loop(k, Poly.sym('$N'), s.get('l', 0), fr.file, par, kind)
            res = {}

            def run(state, final=False, lp=lp):
                self.loops = saved + (lp,)
                try:
                    og = self.outer_guards
                    self.outer_guards = og + state.guards
                    state = State(state.mem, ())
                    c = TRUE
                    if cond is not None:
                        c = self.simplify(T.to_bool(self.rv(cond, state, fr)), state)
                    res['c'] = c
                    after = state.fork()
                    ctl = Ctl('loop', state.guards)
                    fr.ctl.append(ctl)
                    o = self.exec(body, state, fr)
                    fr.ctl.pop()
                    o = self.merge_states((), ctl.conts + ([o] if o is not None else []))
                    if o is not None and inc is not None:
                        self.rv(inc, o, fr)
                    res['o'] = o
                    res['breaks'] = ctl.breaks
                    return o
                finally:
                    self.outer_guards = og
                    self.loops = saved
            touched = self.scan_havoc(st1, fr, run)
            o = res['o']
            newplan = dict(plan)
            # classification of scalars
            grew = False
            for loc in touched:
                if loc in st.mem and loc not in havoc and not (loc[1] and loc[1][-1][0] == '*'):
                    v = st.mem[loc]
                    if isinstance(v, Val) and v.tag in ('lambda',):
                        continue
                    havoc[loc] = v
                    grew = True
            if grew:
                continue
            if o is not None:
                for loc, m in marks.items():
                    nx = o.mem.get(loc)
                    if nx is None:
                        continue
                    if nx == m:
                        newplan[loc] = havoc[loc]
                    elif isinstance(nx, Poly) and isinstance(m, Poly):
                        d = nx - m
                        if d.is_const() and isinstance(havoc[loc], Poly):
                            newplan[loc] = havoc[loc] + d * k
                    elif isinstance(nx, Val) and nx.tag == 'iter' and isinstance(m, Val) and m.tag == 'iter' and nx.a[0] == m.a[0]:
                        d = nx.a[1] - m.a[1]
                        if d.is_const():
                            newplan[loc] = Val('iter', m.a[0], havoc[loc].a[1] + d * k, m.a[2])
                    elif isinstance(nx, Val) and nx.tag == 'ptr' and isinstance(m, Val) and m.tag == 'ptr':
                        a, b = nx.a[0], m.a[0]
                        if a[0] == b[0] and a[1][:-1] == b[1][:-1] and a[1][-1][0] == 'i' and b[1][-1][0] == 'i':
                            d = a[1][-1][1] - b[1][-1][1]
                            h = havoc[loc].a[0]
                            if d.is_const() and h[1] and h[1][-1][0] == 'i':
                                newplan[loc] = T.ptr((h[0], h[1][:-1] + (('i', h[1][-1][1] + d * k),)))
            if newplan == plan:
                break
            plan = newplan
        # trip count from the condition
        c = res['c']
        N = self.trip(c, k)
        lp = Loop(k, N if N is not None else T.op('while', c), s.get('l', 0), fr.file, par, kind)
        lp.cond = c
        # heap / array content written in the body: unknown (current) at loop entry
        st1 = st.fork()
        for loc, v in havoc.items():
            st1.mem.pop(loc, None)
            st1.mem[loc] = plan[loc] if loc in plan else self.marker(loc, v, depth)
        wl = self.written_roots(touched, k, havoc, fr, st)
        self.verseq += 1
        lab = 'in%d' % self.verseq
        for w in wl:
            self.drop(st1, w)
            st1.mem[(w[0], w[1] + (('*',),))] = Val('ver', lab)
        rets0 = len(fr.returns)
        mark0 = len(self.trace)
        # final pass, effects recorded
        saved = self.loops
        self.loops = saved + (lp,)
        og = self.outer_guards
        self.outer_guards = og + st1.guards
        state = State(st1.mem, ())
        if cond is not None:
            cc = self.rv(cond, state, fr)
        if N is None and cond is not None and c not in (TRUE,):
            state = state.fork(c)
        ctl = Ctl('loop', state.guards)
        fr.ctl.append(ctl)
        o = self.exec(body, state, fr)
        fr.ctl.pop()
        o = self.merge_states((), ctl.conts + ([o] if o is not None else []))
        if o is not None and inc is not None:
            self.rv(inc, o, fr)
        self.outer_guards = og
        self.loops = saved
        if ctl.breaks:
            lp.breaks = True
        # returns from inside the loop: guard them as "some iteration"
        for i in range(rets0, len(fr.returns)):
            g, m, v = fr.returns[i]
            ex = Val('bool', T.op('exists', lp.n if not isinstance(lp.n, Poly) else lp.n, T.b_and(*g)))
            fr.returns[i] = (base + (ex,), m, v)
        exit_by_ret = len(fr.returns) > rets0
        # post-loop state
        out = st.fork()
        for s_ in self.touched:
            s_ |= touched
        brk = bool(ctl.breaks)
        for loc, v in havoc.items():
            nx = o.mem.get(loc) if o is not None else None
            out.mem.pop(loc, None)
            if loc in plan and not brk:
                if plan[loc] == v:
                    out.mem[loc] = v
                elif isinstance(plan[loc], Poly) and isinstance(N, Poly):
                    d = plan[loc] - v
                    # d = c*k
                    coef = self.coef(d, k)
                    out.mem[loc] = v + coef * N
                else:
                    out.mem[loc] = self.opaque_like(v, ('loopout', lp.n, loc), depth)
                continue
            m = self.marker(loc, v, depth)
            vals = [nx] if nx is not None else []
            if brk:
                vals += [b.mem.get(loc) for b in ctl.breaks]
                if all(x == vals[0] for x in vals) and len(vals) > 0 and vals[0] == m:
                    out.mem[loc] = v
                    continue
                out.mem[loc] = self.fold_like(v, 'search', v, tuple([(T.b_and(*b.guards), b.mem.get(loc)) for b in ctl.breaks]) + ((nx,) if nx is not None else ()), lp.n, m)
                continue
            if nx is None:
                out.mem[loc] = v
                continue
            out.mem[loc] = self.accumulate(v, m, nx, k, lp.n, loc)
        self.verseq += 1
        lab = 'out%d' % self.verseq
        for w in wl:
            self.drop(out, w)
            pats = []
            if o is not None and not brk:
                for key, val in o.mem.items():
                    if key[0] == w[0] and len(key[1]) > len(w[1]) and key[1][:len(w[1])] == w[1] and key[1][-1][0] != '*' and st1.mem.get(key) != val:
                        pats.append((k, lp.n, key[1], val, w))
            out.mem[(w[0], w[1] + (('*',),))] = Val('ver', lab)
            sizes = {}
            for key, val in st.mem.items():
                if key[0] == w[0] and key[1][-1:] == (('f', '#size'),) and key[1][:len(w[1])] == w[1] and key not in touched:
                    out.mem[key] = val
            if pats:
                self.symroots.add(w[0])
                out.mem[(w[0], w[1] + (('*', 'forall'),))] = Val('forall', tuple(pats))
        return out

    def coef(self, d, k):
        (ka, _), = list(k.m)[0]
        r = ZERO
        for mono, c in d.m.items():
            mm = tuple((a, e) for a, e in mono if a != ka)
            r = r + Poly({mm: c})
        return r

    def accumulate(self, init, m, nx, k, n, loc):
        if isinstance(m, Poly) and isinstance(nx, Poly) and isinstance(init, Poly):
            d = nx - m

            def has_marker(v):
                return bool(T.mentions(v, lambda kd, o: kd == 'atom' and o[0] == 'sym' and str(o[1]).startswith('$acc')))
            if not has_marker(d):
                ka = k.as_atom()
                if not T.mentions(d, lambda kd, o: kd == 'atom' and o == ka) and isinstance(n, Poly):
                    return init + d * n
                return init + T.app('sum', n, k, d)
        return self.fold_like(init, 'fold', init, (nx,), n, m)

    def fold_like(self, like, tag, *payload):
        if isinstance(like, Poly):
            return Poly.atom(('app', tag, tuple(payload)))
        if T._isbool(like):
            return Val('bool', T.op(tag, *payload))
        if isinstance(like, Val) and like.tag == 'ptr':
            return T.ptr((T.op(tag, *payload), (('i', ZERO),)))
        return T.op(tag, *payload)

    def opaque_like(self, like, key, depth):
        return self.fold_like(like, 'loopval', T.strv(str(key[0])), key[1], T.strv('d%d' % depth))

    def marker(self, loc, v, depth):
        name = '$acc%d:%s' % (depth, re.sub(r'#.*', '', str(loc[0])) + T.lstr(('', loc[1])))
        if isinstance(v, Poly):
            return Poly.sym(name)
        if T._isbool(v):
            return Val('bool', T.op('sym', name))
        if isinstance(v, Val):
            if v.tag == 'iter':
                return Val('iter', v.a[0], Poly.sym(name), v.a[2])
            if v.tag == 'ptr' and v.a[0][1] and v.a[0][1][-1][0] == 'i' and isinstance(v.a[0][1][-1][1], Poly):
                return T.ptr((v.a[0][0], v.a[0][1][:-1] + (('i', Poly.sym(name)),)))
            if v.tag == 'ite' and isinstance(v.a[1], Poly):
                return Poly.sym(name)
        return Val('sym', name)

    def trip(self, c, k):
        """N with c <=> k < N, or None"""
        if c == TRUE:
            return None
        ka = k.as_atom()
        if c.tag == 'ge0':
            p = c.a[0]
            # p = a - s*k
            co = self.kcoef(p, k)
            if co is not None:
                rest = p - co * k
                cc = co.as_int()
                if cc == -1:
                    return rest + ONE
                if cc is not None and cc < 0:
                    return T.app('ceildiv', rest + ONE, Poly.const(-cc)) if not rest.is_const() else Poly.const((int(rest.cval()) // (-cc)) + 1)
        if c.tag == 'gt0':
            p = c.a[0]
            co = self.kcoef(p, k)
            if co is not None and co.as_int() == -1:
                return p - co * k
        if c.tag == 'not' and c.a[0].tag == 'eq0':
            p = c.a[0].a[0]
            co = self.kcoef(p, k)
            if co is not None:
                cc = co.as_int()
                if cc in (1, -1):
                    return (p - co * k).scale(-cc)
        if c.tag == 'not' and c.a[0].tag == 'eq':
            a, b = c.a[0].a
            if isinstance(a, Val) and a.tag == 'iter' and isinstance(b, Val) and b.tag == 'iter' and a.a[0] == b.a[0]:
                for x, y in ((a, b), (b, a)):
                    if self.kcoef(x.a[1], k) is not None and self.kcoef(x.a[1], k).as_int() == 1:
                        return y.a[1] - (x.a[1] - k)
        return None

    def kcoef(self, p, k):
        """coefficient of k in p when p is affine in k (else None)"""
        (ka, _), = list(k.m)[0]
        r = ZERO
        found = False
        for mono, c in p.m.items():
            es = [e for a, e in mono if a == ka]
            if es:
                if es[0] != 1:
                    return None
                found = True
                r = r + Poly({tuple((a, e) for a, e in mono if a != ka): c})
        if not found:
            return None
        katom = T.atom_key(ka)
        if T.mentions(p - r * k, lambda kd, o: kd == 'atom' and o == katom):
            return None
        return r

    def written_roots(self, touched, k, havoc, fr, st):
        """prefixes (before the first index) of memory written through indices"""
        out = set()
        for loc in touched:
            if loc in havoc:
                continue
            root, path = loc
            if isinstance(root, str) and root in self.locals and not any(kk[0] == root for kk in st.mem):
                continue      # born inside the loop
            cut = len(path)
            for i, p in enumerate(path):
                if p[0] in ('i', '*'):
                    cut = i
                    break
            out.add((root, path[:cut]))
        # keep only maximal prefixes
        res = set()
        for w in out:
            if not any(o != w and o[0] == w[0] and w[1][:len(o[1])] == o[1] for o in out):
                res.add(w)
        return res

    def s_RangeFor(self, s, st, fr):
        rng = self.rv_or_obj(s['range'], st, fr)
        if isinstance(rng, Val) and rng.tag == 'obj' or isinstance(rng, Val) and rng.tag == 'ptr':
            loc = rng.a[0]
        else:
            loc = self.tmp('r')
            self.put(st, loc, rng if isinstance(rng, Val) else T.op('num', rng))
        t = strip_ref(s['range']['t'])
        ismap = t.startswith(('std::map<', 'std::unordered_map<'))
        ad = arr_dims(t)
        if ad:
            n = Poly.const(ad[1][0])
            if loc[1] and loc[1][-1] == ('i', ZERO) and rng.tag == 'ptr':
                loc = (loc[0], loc[1][:-1])
        else:
            n = self.size_of(st, loc, t)
        s0 = None
        if s.get('beg'):
            from .intrinsics import itrange
            fr.bind[s['rvar']] = loc
            r = itrange(self, self.rv(s['beg'], st, fr), self.rv(s['end'], st, fr))
            if r is not None:
                loc, s0, n = r
        base = st.guards
        ci = n.as_int()
        var = s['var']

        def bindelem(state, idx):
            if ismap:
                el = (loc[0], loc[1] + (('e', idx),))
                self.decl_elem(var, s, el, state, fr)
            else:
                el = (loc[0], loc[1] + (('i', idx if s0 is None else s0 + idx),))
                self.decl_elem(var, s, el, state, fr)
        if ci is not None and ci <= 64 and (not ismap or self.known_keys((loc[0], loc[1] + (('e', ZERO),)), st) is not None):
            cur = st
            exits = []
            for i in range(ci):
                if cur is None:
                    break
                bindelem(cur, Poly.const(i))
                ctl = Ctl('loop', cur.guards)
                fr.ctl.append(ctl)
                o = self.exec(s['body'], cur, fr)
                fr.ctl.pop()
                exits.extend(ctl.breaks)
                cur = self.merge_states(base, ctl.conts + ([o] if o is not None else []))
            return self.merge_states(base, exits + ([cur] if cur is not None else []))
        return self.counted_loop(s, st, fr, n, bindelem, s['body'], cont=(loc, t))

    def decl_elem(self, var, s, el, state, fr):
        if s.get('bind'):
            kk = self.known_keys(el, state) if el[1][-1][0] == 'e' else None
            for i, b in enumerate(s['bind']):
                if kk is not None:
                    kx = self.mapkey(el, state)
                    from . import intrinsics as X
                    t = self.tmp('key')
                    X.put_key(self, state, t, kx)
                    fr.bind[b['d']] = t if i == 0 else (el[0], el[1][:-1] + (('i', kx),))
                    continue
                fr.bind[b['d']] = (el[0], el[1] + (('f', 'first' if i == 0 else 'second'),))
            return
        if is_ref(var['t']):
            fr.bind[var['d']] = el
            return
        v = self.load(state, el, var['t'])
        loc = self.local(fr, var['d'], var['n'])
        fr.bind[var['d']] = loc
        self.drop(state, loc)
        if isinstance(v, Val) and v.tag == 'obj':
            fr.bind[var['d']] = v.a[0]
        else:
            self.put(state, loc, v)

    def counted_loop(self, s, st, fr, n, bindelem, body, par=False, kind='range', cont=None, runbody=None):
        """loop over binder 0..n-1, reusing sym_loop through a synthetic step"""
        k = self.binder()
        interp = self
        node = {'k': '$Bind', 'l': s.get('l', 0)}

        def bind(state):
            bindelem(state, k)
        key = '$k%d' % (len(self.loops) + 1)
        self._counted = getattr(self, '_counted', {})
        body2 = {'k': 'Counted', 'bind': bind, 'body': body, 'run': runbody, 'l': s.get('l', 0)}
        lc = ('loopctr~%s' % key, ())
        return self.sym_counted(s, st, fr, n, body2, par, kind, cont)

    def s_Counted(self, s, st, fr):
        s['bind'](st)
        if s.get('run'):
            return s['run'](st)
        return self.exec(s['body'], st, fr)

    def sym_counted(self, s, st, fr, n, body2, par, kind, cont):
        # a fresh local counter drives sym_loop: cond  ctr < n ; inc  ctr += 1
        loc = self.tmp('ctr')
        d = 'ctr%d' % self.ntmp
        fr.bind[d] = loc
        self.put(st, loc, ZERO)
        cond = {'k': 'Pre', 'f': lambda state: T.b_gt0(n - self.load(state, loc, 'int'), True), 't': 'bool'}
        inc = {'k': 'Pre', 'f': lambda state: self.store(state, loc, T.to_num(self.load(state, loc, 'int')) + ONE), 't': 'int'}
        # let 'assigned' see the counter
        body = {'k': 'Block', 'l': s.get('l', 0), 's': [body2]}
        inc['x'] = {'k': 'Un', 'op': '++', 'e': {'k': 'Ref', 'd': d}}
        body2['ast'] = body2.get('body')
        r = self.sym_loop(s, st, fr, cond, body, inc, par, kind)
        return r

    def size_of(self, st, loc, t):
        v = st.mem.get((loc[0], loc[1] + (('f', '#size'),)))
        if v is not None:
            return T.to_num(v)
        t = strip_ref(t)
        m = re.match(r'^std::array<.*, (\d+)U?L?>$', t)
        if m:
            return Poly.const(int(m.group(1)))
        if len(loc[1]) >= 1 and loc[1][-1][0] == 'i':
            es = st.mem.get((loc[0], loc[1][:-1] + (('f', '#elsize'),)))
            if es is not None:
                return T.to_num(es)
        w = st.mem.get(loc)
        if w is not None and isinstance(w, Val) and w.tag not in ('obj', 'ptr'):
            if w.tag == 'str':
                return Poly.const(len(w.a[0]))
            if w.tag == 'init':
                return Poly.const(len(w.a))
            return Poly.atom(('app', 'size', (w,)))
        fb = self.fallback(st, loc)
        if fb.tag == 'from':
            l, ver = fb.a
            return Poly.atom(('app', 'size', (Val('ld', l, ver),)))
        if fb.tag == 'fill' and fb.a[0] is None and loc[1] and loc[1][-1][0] == 'i':
            return ZERO                                         # a default-constructed element
        return Poly.atom(('app', 'size', (Val('ld', loc, ''),)))

    # ------------------------------------------------------------------ expressions
    def lv(self, e, st, fr):
        """location of an lvalue (temporaries get storage)"""
        k = e['k']
        if k == 'Ref':
            d = e['d']
            if d in fr.bind:
                return fr.bind[d]
            if e['dk'] in ('global', 'static'):
                return ('global:' + e['q'], ())
            if e['dk'] == 'func':
                loc = self.tmp('fn')
                self.put(st, loc, Val('func', e['fn']))
                return loc
            if e['dk'] == 'enum':
                loc = self.tmp('c')
                self.put(st, loc, Poly.const(int(e['cv'])))
                return loc
            loc = self.local(fr, d, e['n'])
            fr.bind[d] = loc
            return loc
        if k == 'This':
            return fr.this
        if k == 'Loc':
            return e['loc']
        if k == 'Mem':
            if e.get('arrow') or is_ptr(e['b'].get('t', '')):
                b = self.deref(self.rv(e['b'], st, fr), st)
            else:
                b = self.lv(e['b'], st, fr)
            return self.field(b, e, st)
        if k == 'Idx':
            self.cur = st
            b = self.rv(e['b'], st, fr)
            i = T.to_num(self.rv(e['i'], st, fr))
            if isinstance(b, Poly):
                b, i = self.rv(e['i'], st, fr), b
            return self.index(b, i, e)
        if k == 'Un':
            if e['op'] == '*':
                v = self.rv(e['e'], st, fr)
                return self.deref(v, st, e.get('t', ''))
            if e['op'] in ('++', '--'):
                self.rv(e, st, fr)
                return self.lv(e['e'], st, fr)
        if k == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            self.rv(e, st, fr)
            return self.lv(e['a'], st, fr)
        if k == 'Bin' and e['op'] == ',':
            self.rv(e['a'], st, fr)
            return self.lv(e['b'], st, fr)
        if k == 'Cond':
            c = T.to_bool(self.rv(e['c'], st, fr))
            if c == TRUE:
                return self.lv(e['a'], st, fr)
            if c == FALSE:
                return self.lv(e['b'], st, fr)
            sa, sb = st.fork(c), st.fork(T.b_not(c))
            a = self.lv(e['a'], sa, fr)
            b = self.lv(e['b'], sb, fr)
            st.mem = self.merge2(c, sa.mem, sb.mem)
            if a == b:
                return a
            va, vb = self.load(st, a, e['t']), self.load(st, b, e['t'])
            if isinstance(va, Val) and va.tag == 'obj':
                return (T.op('iteloc', c, T.ptr(a), T.ptr(b)), ())
            loc = self.tmp()
            self.put(st, loc, T.ite(c, va, vb))
            return loc
        if k == 'Cast':
            t = e.get('t', '')
            if e['ck'] in ('BaseToDerived', 'DerivedToBase', 'UncheckedDerivedToBase', 'Dynamic', 'BitCast', 'NoOp') and not is_ptr(t):
                return self.lv(e['e'], st, fr)
        v = self.rv(e, st, fr)
        if isinstance(v, Val) and v.tag == 'obj':
            return v.a[0]
        if isinstance(v, Val) and v.tag == 'lref':
            return v.a[0]
        loc = self.tmp()
        self.put(st, loc, v)
        return loc

    def field(self, b, e, st):
        if 'cv' in e and False:
            pass
        if b[1] and b[1][-1][0] in ('e', 'ek') and e['n'] in ('first', 'second'):
            kx = b[1][-1][1] if b[1][-1][0] == 'ek' else self.mapkey(b, st)
            if e['n'] == 'second':
                return (b[0], b[1][:-1] + (('i', kx),))
            if b[1][-1][0] == 'ek' or self.known_keys(b, st) is not None:
                from . import intrinsics as X
                t = self.tmp('key')
                X.put_key(self, st, t, kx)
                return t
        loc = (b[0], b[1] + (('f', e['n']),))
        if ']' in e.get('t', '')[-1:] and loc not in self.extent:
            ad = arr_dims(strip_ref(e['t']))
            if ad:
                self.extent[loc] = ad[1]
        v = st.mem.get(loc)
        # reference fields
        rt = e.get('t', '')
        if isinstance(v, Val) and v.tag == 'ptr' and self.ref_field(e):
            return v.a[0]
        return loc

    _rf = None

    def ref_field(self, e):
        if self._rf is None:
            self._rf = set()
            for r in self.P.records.values():
                for f in r['fields']:
                    if is_ref(f['t']):
                        self._rf.add(r['q'] + '::' + f['n'])
        q = e.get('q') or ''
        if '<' in q:
            out, d = '', 0
            for c in q:
                d += c == '<'
                if not d:
                    out += c
                d -= c == '>'
            return q in self._rf or out in self._rf
        return q in self._rf

    def known_keys(self, el, st):
        """sorted keys of a map whose whole content is known; el is the location of one of its elements"""
        v = st.mem.get((el[0], el[1][:-1] + (('f', '#keys'),)))
        return v.a if isinstance(v, Val) and v.tag == 'keys' else None

    def mapkey(self, el, st):
        ks = self.known_keys(el, st)
        i = el[1][-1][1].as_int() if isinstance(el[1][-1][1], Poly) else None
        if ks is not None and i is not None and 0 <= i < len(ks):
            return ks[i]
        kl = (el[0], el[1] + (('f', 'first'),))
        return Poly.atom(('ld', kl, ''))

    def deref(self, v, st, t=None):
        if isinstance(v, Val):
            if v.tag == 'ptr':
                root, path = v.a[0]
                if path and path[-1] == ('&',):
                    return (root, path[:-1])
                return (root, path)
            if v.tag == 'iter':
                return self.iter_loc(v)
            if v.tag == 'obj':
                return v.a[0]
            if v.tag == 'func':
                loc = self.tmp('fn')
                self.put(st, loc, v)
                return loc
            if v.tag == 'ite':
                a, b = v.a[1], v.a[2]
                if isinstance(a, Val) and isinstance(b, Val) and a.tag == 'ptr' and b.tag == 'ptr':
                    return (T.op('iteloc', *v.a), ())
            if v.tag == 'null':
                self.ub(st, 'dereference', 'a null pointer', ('null', ()), None, None)
                return (Val('null'), ())
        return (v if isinstance(v, Val) else T.op('addr', v), ())

    def iter_loc(self, v):
        loc, idx, ismap = v.a
        return (loc[0], loc[1] + ((('e' if ismap else 'i'), idx),))

    def index(self, b, i, e):
        if isinstance(b, Val):
            if b.tag == 'null' and self.cur is not None and not self._addr:
                self.ub(self.cur, 'dereference', 'a null pointer', ('null', ()), e if isinstance(e, dict) else None, None)
            if b.tag == 'ptr':
                root, path = b.a[0]
                if path and path[-1] == ('&',):
                    if i == ZERO:
                        return (root, path[:-1])
                    return (root, path[:-1] + (('i', i),))
                if path and path[-1][0] == 'i' and isinstance(path[-1][1], Poly) and not self.is_row(b.a[0], e):
                    return (root, path[:-1] + (('i', path[-1][1] + i),))
                return (root, path + (('i', i),))
            if b.tag == 'iter':
                return self.iter_loc(Val('iter', b.a[0], b.a[1] + i, b.a[2]))
            if b.tag == 'obj':
                return (b.a[0][0], b.a[0][1] + (('i', i),))
            if b.tag == 'ite':
                return (b, (('i', i),))
            return (b, (('i', i),))
        return (T.op('addr', b), (('i', i),))

    def is_row(self, loc, e):
        return False

    def rv_or_obj(self, e, st, fr):
        return self.rv(e, st, fr)

    def rv(self, e, st, fr):
        self.steps += 1
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise AnalysisError('expression kind %s not modelled (%s:%s)' % (e['k'], fr.file, e.get('l')))
        return m(e, st, fr)

    def e_Pre(self, e, st, fr):
        return e['f'](st)

    def e_None(self, e, st, fr):
        return VOID

    def e_Int(self, e, st, fr):
        return Poly.const(int(e['v']))

    def e_Float(self, e, st, fr):
        return Poly.const(T.parse_float(e.get('s', e['v']), e['v']))

    def e_Bool(self, e, st, fr):
        return T.b_const(e['v'])

    def e_Char(self, e, st, fr):
        return Poly.const(e['v'])

    def e_Str(self, e, st, fr):
        if self.charptr:
            loc = ('lit:' + e['v'], ())
            self.locals.add(loc[0])
            st.mem.setdefault(loc, T.strv(e['v']))
            return T.ptr((loc[0], (('i', ZERO),)))
        return T.strv(e['v'])

    def e_Null(self, e, st, fr):
        return Val('null')

    def e_Zero(self, e, st, fr):
        t = strip_ref(e['t'])
        if is_bool(t):
            return FALSE
        if is_ptr(t):
            return Val('null')
        return ZERO

    def e_This(self, e, st, fr):
        return T.ptr((fr.this[0], fr.this[1] + (('&',),)))

    def e_Udl(self, e, st, fr):
        return T.op('udl')

    def e_Typeid(self, e, st, fr):
        return T.op('typeid', T.strv(e.get('t', '')))

    def e_SizeOf(self, e, st, fr):
        return T.app('sizeof', T.strv(e.get('t', '')))

    def e_Opaque(self, e, st, fr):
        return T.op('opaque')

    def e_PseudoDtor(self, e, st, fr):
        return VOID

    def e_Unk(self, e, st, fr):
        vs = [self.rv(a, st, fr) for a in e.get('args', ())]
        return T.op('unk:' + e.get('c', ''), *vs)

    def e_Ref(self, e, st, fr):
        if 'cv' in e:
            if is_bool(e.get('t', '')):
                return T.b_const(int(e['cv']) != 0)
            return Poly.const(int(e['cv']))
        if e['dk'] == 'func':
            return Val('func', e['fn'])
        d = e['d']
        if d not in fr.bind and e['dk'] in ('global', 'static'):
            g = self.P.vars.get(e['q'])
            loc = ('global:' + e['q'], ())
            if loc not in st.mem and g is not None and g['v'].get('init') is not None and 'const' in g['v']['t']:
                t = g['v']['t']
                if is_string(t) or is_num(t, self.P):
                    return self.rv(g['v']['init'], st, fr)
                if not self.is_init_global(st, loc):
                    self.quiet += 1
                    self.init_into(loc, t, g['v']['init'], st, fr)
                    self.quiet -= 1
            return self.ld(st, loc, e['t'], e, fr)
        return self.ld(st, self.lv(e, st, fr), e['t'], e, fr)

    def is_init_global(self, st, loc):
        return any(k[0] == loc[0] for k in st.mem)

    def ld(self, st, loc, t, node=None, fr=None):
        s = strip_ref(t)
        if loc[1]:
            self.bounds(st, loc, node, fr, 'read')
        if arr_dims(s):
            v = st.mem.get(loc)
            if isinstance(v, Val) and v.tag == 'str':
                return v
            return T.ptr((loc[0], loc[1] + (('i', ZERO),)))
        v = self.load(st, loc, t)
        if loc[0] in self.raw and (v is UNDEF or isinstance(v, Poly) and v == Poly.atom(('ld', loc, 'uninit' if not loc[1] else ''))):
            self.ub(st, 'read', 'a value never initialised', loc, node, fr)
        return v

    def e_Mem(self, e, st, fr):
        if 'cv' in e:
            return Poly.const(int(e['cv'])) if not is_bool(e['t']) else T.b_const(int(e['cv']) != 0)
        loc = self.lv(e, st, fr)
        return self.ld(st, loc, e['t'], e, fr)

    def e_Idx(self, e, st, fr):
        b = self.rv(e['b'], st, fr)
        if isinstance(b, Val) and b.tag == 'str':
            i = T.to_num(self.rv(e['i'], st, fr)).as_int()
            if i is not None and i <= len(b.a[0]):
                return Poly.const(ord((b.a[0] + '\0')[i]))
        return self.ld(st, self.lv(e, st, fr), e['t'], e, fr)

    def e_Un(self, e, st, fr):
        op = e['op']
        if op == '&':
            old, self._addr = self._addr, True
            loc = self.lv(e['e'], st, fr)
            self._addr = old
            if isinstance(e['e'], dict) and e['e']['k'] == 'Ref' and e['e'].get('dk') == 'func':
                return Val('func', e['e']['fn'])
            if loc[1] and loc[1][-1][0] == 'i':
                return T.ptr(loc)
            return T.ptr((loc[0], loc[1] + (('&',),)))
        if op == '*':
            loc = self.lv(e, st, fr)
            return self.ld(st, loc, e['t'], e, fr)
        if op == '-':
            return -T.to_num(self.rv(e['e'], st, fr))
        if op == '!':
            return T.b_not(T.to_bool(self.rv(e['e'], st, fr)))
        if op == '~':
            return T.app('~', T.to_num(self.rv(e['e'], st, fr)))
        if op in ('++', '--', 'p++', 'p--'):
            loc = self.lv(e['e'], st, fr)
            v = self.load(st, loc, e['e']['t'])
            n = self.add(v, ONE if '++' in op else -ONE)
            self.store(st, loc, n, node=e, fr=fr)
            return v if op[0] == 'p' else n
        if op in ('__real', '__imag', '__extension__'):
            return self.rv(e['e'], st, fr)
        raise AnalysisError('unary %s' % op)

    def add(self, v, d):
        if isinstance(v, Poly):
            return v + d
        if isinstance(v, Val):
            if v.tag == 'iter':
                return Val('iter', v.a[0], v.a[1] + d, v.a[2])
            if v.tag == 'ptr':
                root, path = v.a[0]
                if path and path[-1][0] == 'i' and isinstance(path[-1][1], Poly):
                    return T.ptr((root, path[:-1] + (('i', path[-1][1] + d),)))
                if path and path[-1] == ('&',):
                    return v if d == ZERO else T.ptr((root, path[:-1] + (('i', d),)))
                return T.ptr((root, path + (('i', d),)))
            if T._isbool(v):
                return T.to_num(v) + d
            if v.tag == 'ite':
                return T.ite(v.a[0], self.add(v.a[1], d), self.add(v.a[2], d))
        return T.op('+', v, d)

    def binop(self, op, a, b, ta, tb, tr):
        if op in ('&&', '||'):
            raise AssertionError
        if op in ('==', '!='):
            if isinstance(a, Val) and a.tag == 'ptr' and isinstance(b, Val) and b.tag == 'null' or isinstance(b, Val) and b.tag == 'ptr' and isinstance(a, Val) and a.tag == 'null':
                p = a if a.tag == 'ptr' else b
                r = T.b_not(T.to_bool(p))
            else:
                if isinstance(a, Val) and isinstance(b, Val) and a.tag == 'ptr' and b.tag == 'ptr' and a.a[0][0] == b.a[0][0] and a.a[0][1][:-1] == b.a[0][1][:-1] \
                        and a.a[0][1] and b.a[0][1] and a.a[0][1][-1][0] == 'i' and b.a[0][1][-1][0] == 'i' and isinstance(a.a[0][1][-1][1], Poly) and isinstance(b.a[0][1][-1][1], Poly):
                    a, b = a.a[0][1][-1][1], b.a[0][1][-1][1]
                if isinstance(a, Poly) != isinstance(b, Poly):
                    if isinstance(a, Val) and (T._isbool(a) or a.tag == 'ite'):
                        a = T.to_num(a)
                    if isinstance(b, Val) and (T._isbool(b) or b.tag == 'ite'):
                        b = T.to_num(b)
                r = T.b_eq(a, b)
            return r if op == '==' else T.b_not(r)
        if op in ('<', '>', '<=', '>='):
            if isinstance(a, Val) and not T._isbool(a) and a.tag in ('str', 'sym', 'ld', 'op', 'ptr', 'iter') or isinstance(b, Val) and b.tag in ('str', 'sym', 'ld', 'op', 'ptr', 'iter'):
                if isinstance(a, Val) and isinstance(b, Val) and a.tag == 'iter' and b.tag == 'iter' and a.a[0] == b.a[0]:
                    a, b = a.a[1], b.a[1]
                elif isinstance(a, Val) and isinstance(b, Val) and a.tag == 'ptr' and b.tag == 'ptr' and a.a[0][0] == b.a[0][0] and a.a[0][1][:-1] == b.a[0][1][:-1]:
                    a, b = a.a[0][1][-1][1], b.a[0][1][-1][1]
                else:
                    return Val('bool', T.op(op, a, b))
            a, b = T.to_num(a), T.to_num(b)
            isint = not (is_float(ta) or is_float(tb))
            if op == '<':
                return T.b_gt0(b - a, isint)
            if op == '>':
                return T.b_gt0(a - b, isint)
            if op == '<=':
                return T.b_ge0(b - a) if isint else T.b_not(T.b_gt0(a - b))
            return T.b_ge0(a - b) if isint else T.b_not(T.b_gt0(b - a))
        if op == '+':
            if isinstance(a, Val) and a.tag in ('ptr', 'iter'):
                return self.add(a, T.to_num(b))
            if isinstance(b, Val) and b.tag in ('ptr', 'iter'):
                return self.add(b, T.to_num(a))
        if op == '-':
            if isinstance(a, Val) and a.tag in ('ptr', 'iter'):
                if isinstance(b, Val) and b.tag == a.tag:
                    if a.tag == 'iter' and a.a[0] == b.a[0]:
                        return a.a[1] - b.a[1]
                    if a.tag == 'ptr' and a.a[0][0] == b.a[0][0] and a.a[0][1][:-1] == b.a[0][1][:-1]:
                        return a.a[0][1][-1][1] - b.a[0][1][-1][1]
                    return T.app('ptrdiff', a, b)
                return self.add(a, -T.to_num(b))
        na, nb = T.to_num(a), T.to_num(b)
        if op == '+':
            return na + nb
        if op == '-':
            return na - nb
        if op == '*':
            return na * nb
        if op == '/':
            if is_float(tr) or is_float(ta) or is_float(tb):
                return na.div(nb)
            ia, ib = na.as_int(), nb.as_int()
            if ia is not None and ib:
                q = abs(ia) // abs(ib)
                return Poly.const(q if (ia >= 0) == (ib >= 0) else -q)
            if nb == ONE:
                return na
            return T.app('idiv', na, nb)
        if op == '%':
            ia, ib = na.as_int(), nb.as_int()
            if ia is not None and ib:
                r = abs(ia) % abs(ib)
                return Poly.const(r if ia >= 0 else -r)
            return T.app('mod', na, nb)
        if op == '^' and isinstance(a, Poly) and isinstance(b, Poly):
            ka, kb = a.as_atom(), b.as_atom()
            ba = ka[1] if ka and ka[0] == 'b' else TRUE if a == ONE else FALSE if a == ZERO else None
            bb = kb[1] if kb and kb[0] == 'b' else TRUE if b == ONE else FALSE if b == ZERO else None
            if ba is not None and bb is not None:
                return T.to_num(T.b_or(T.b_and(ba, T.b_not(bb)), T.b_and(bb, T.b_not(ba))))
        if op in ('<<', '>>', '&', '|', '^'):
            ia, ib = na.as_int(), nb.as_int()
            if ia is not None and ib is not None:
                return Poly.const({'<<': lambda: ia << ib, '>>': lambda: ia >> ib, '&': lambda: ia & ib, '|': lambda: ia | ib, '^': lambda: ia ^ ib}[op]())
            if op in ('&', '|') and T._isbool(a) and T._isbool(b):
                return T.b_and(a, b) if op == '&' else T.b_or(a, b)
            return T.app(op, na, nb)
        raise AnalysisError('binary ' + op)

    def e_Bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.simplify(T.to_bool(self.rv(e['a'], st, fr)), st)
            if op == '&&' and a == FALSE or op == '||' and a == TRUE:
                return a
            # right operand evaluated under the left one
            sub = st.fork(a if op == '&&' else T.b_not(a))
            b = T.to_bool(self.rv(e['b'], sub, fr))
            if sub.mem != st.mem:
                st.mem = self.merge2(a if op == '&&' else T.b_not(a), sub.mem, st.mem)
            return T.b_and(a, b) if op == '&&' else T.b_or(a, b)
        if op == ',':
            self.rv(e['a'], st, fr)
            return self.rv(e['b'], st, fr)
        if op == '=':
            v = self.rv(e['b'], st, fr)
            loc = self.lv(e['a'], st, fr)
            self.assign_val(st, loc, e['a']['t'], v, e, fr)
            return v
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = self.rv(e['b'], st, fr)
            loc = self.lv(e['a'], st, fr)
            o = self.load(st, loc, e['a']['t'])
            r = self.binop(op[:-1], o, v, e['a']['t'], e['b']['t'], e.get('ct', e['t']))
            if op in ('/=', '%='):
                self.divisor(st, v, e.get('ct', e['t']), e['b']['t'], e, fr)
            self.store(st, loc, r, node=e, fr=fr, kind=op)
            return r
        a = self.rv(e['a'], st, fr)
        b = self.rv(e['b'], st, fr)
        if op in ('/', '%'):
            self.divisor(st, b, e.get('t', ''), e['b'].get('t', ''), e, fr)
        return self.binop(op, a, b, e['a'].get('t', ''), e['b'].get('t', ''), e.get('t', ''))

    def divisor(self, st, b, t, tb, e, fr):
        if (T.to_num(b) if isinstance(b, (Poly, Val, tuple)) else b) == ZERO and not is_float(t) and not is_float(tb) and not (isinstance(b, Val) and b.tag in ('ptr', 'obj')):
            self.ub(st, 'division', 'integer division by zero', (self.at[0], ()), e, fr)

    def e_Cond(self, e, st, fr):
        c = self.simplify(T.to_bool(self.rv(e['c'], st, fr)), st)
        if c == TRUE:
            return self.rv(e['a'], st, fr)
        if c == FALSE:
            return self.rv(e['b'], st, fr)
        sa, sb = st.fork(c), st.fork(T.b_not(c))
        a = self.rv(e['a'], sa, fr)
        b = self.rv(e['b'], sb, fr)
        st.mem = self.merge2(c, sa.mem, sb.mem)
        if isinstance(a, Poly) != isinstance(b, Poly) and is_num(e.get('t', ''), self.P):
            a, b = T.to_num(a), T.to_num(b)
        return T.ite(c, a, b)

    def e_Cast(self, e, st, fr):
        ck = e['ck']
        v = self.rv(e['e'], st, fr)
        t = strip_ref(e['t'])
        if ck in ('FloatingToIntegral',):
            p = T.to_num(v)
            if p.is_const():
                c = p.cval()
                return Poly.const(int(c))
            return T.app('trunc', p)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return T.to_bool(v)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return Val('null')
        if ck == 'ToVoid':
            return VOID
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral'):
            if is_bool(t):
                return T.to_bool(v)
            if t == 'float' and strip_ref(e['e'].get('t', '')) == 'double':
                p = T.to_num(v)
                return p
            if ck == 'IntegralCast' and t in ('char', 'signed char', 'unsigned char') and strip_ref(e['e'].get('t', '')) not in ('char', 'signed char', 'unsigned char'):
                return T.to_num(v)
            return T.to_num(v)
        if ck == 'Dynamic':
            if isinstance(v, Val) and v.tag == 'ptr':
                l = self.deref(v, st)
                d = self.dyntype(st, l)
                if d is not None and is_ptr(e['t']):
                    want = strip_cv(strip_cv(e['t'])[:-1].strip())
                    return v if self.derives(d, want) else Val('null')
                return v
            return v
        return v

    def e_New(self, e, st, fr):
        n = self.rv(e['n'], st, fr) if e.get('n') else None
        if e.get('place') and not e.get('arr') and e.get('init') is not None:
            p = self.rv(e['place'][0], st, fr)
            if isinstance(p, Val) and p.tag == 'ptr' and p.a[0][1][-1:] == (('&',),):
                loc = (p.a[0][0], p.a[0][1][:-1])
                self.init_into(loc, e['at'], e['init'], st, fr)
                if strip_cv(e['at']) in self.P.records:
                    self.put(st, (loc[0], loc[1] + (('f', '#type'),)), T.strv(strip_cv(e['at'])))
                return p
        self.ntmp += 1
        root = 'new~%d' % self.ntmp
        self.locals.add(root)
        loc = (root, ())
        if e.get('init') is not None and not e.get('arr'):
            self.init_into(loc, e['at'], e['init'], st, fr)
        elif e.get('arr'):
            self.put(st, (root, (('f', '#size'),)), T.to_num(n) if n is not None else ZERO)
            self.seqs.add(loc)
        if not e.get('arr') and strip_cv(e['at']) in self.P.records:
            self.put(st, (root, (('f', '#type'),)), T.strv(strip_cv(e['at'])))
        self.effect('new', st, node=e, fr=fr, val=n, loc=loc, q=strip_cv(e['at']), obj='[]' if e.get('arr') else '')
        return T.ptr((root, (('i', ZERO),) if e.get('arr') else (('&',),)))

    def e_Delete(self, e, st, fr):
        v = self.rv(e['e'], st, fr)
        self.effect('delete', st, node=e, fr=fr, val=v, obj='[]' if e.get('arr') else '')
        return VOID

    def e_Throw(self, e, st, fr):
        self.throw(e, st, fr)
        self._noret = True
        return VOID

    def e_Init(self, e, st, fr):
        t = strip_ref(e['t'])
        if is_num(t, self.P) or is_bool(t) or is_ptr(t):
            if not e['args']:
                return FALSE if is_bool(t) else Val('null') if is_ptr(t) else ZERO
            return self.rv(e['args'][0], st, fr)
        loc = self.tmp('il')
        self.init_list(loc, t, e, st, fr)
        return Val('obj', loc)

    def e_Lambda(self, e, st, fr):
        f = Frame(None, 0, fr)
        f.bind = dict(fr.bind)
        f.this = fr.this
        for c in e['caps']:
            if c['kind'] == 'copy' and 'd' in c:
                src = fr.bind.get(c['d'])
                if src is None:
                    continue
                v = st.mem.get(src)
                if v is not None and not (isinstance(v, Val) and v.tag in ('obj',)) and not any(k[0] == src[0] and len(k[1]) > len(src[1]) for k in st.mem):
                    loc = self.tmp(c['n'])
                    self.put(st, loc, v)
                    f.bind[c['d']] = loc
        i = len(self.lambdas)
        self.lambdas[i] = (e, f)
        return Val('lambda', i)

    def call_lambda(self, v, vals, st, fr, node):
        e, cap = self.lambdas[v.a[0]]
        return self.inline_body(e['params'], e['body'], {'rt': '', 'q': fr.name, 'params': e['params'], 'file': ''}, vals, cap.this, st, fr, node, cap)

    def e_Ctor(self, e, st, fr):
        t = strip_ref(e['t'])
        real = [a for a in e['args'] if not a.get('defarg')]
        if is_string(t):
            if not real:
                return T.strv('')
            vs = [self.rv(a, st, fr) for a in real]
            if len(vs) == 1:
                v = vs[0]
                if isinstance(v, Val) and v.tag == 'obj':
                    return self.load(st, v.a[0], t)
                if isinstance(v, Val) and v.tag in ('str', 'ld', 'sym', 'op', 'ite'):
                    return v
                from .intrinsics import as_str
                w = as_str(self, v, st)
                return w if isinstance(w, Val) and w.tag in ('str', 'ld', 'sym', 'op', 'ite') else T.op('string', v)
            if len(vs) == 2:
                from .intrinsics import as_str
                w = as_str(self, vs[0], st)
                n = vs[1].as_int() if isinstance(vs[1], Poly) else None
                if isinstance(w, Val) and w.tag == 'str' and n is not None and is_ptr(real[0].get('t', '')) and 0 <= n <= len(w.a[0]):
                    return T.strv(w.a[0][:n])
            return T.op('string', *vs)
        if e.get('copy') and len(real) == 1:
            v = self.rv(real[0], st, fr)
            if isinstance(v, Val) and v.tag == 'obj' and not (is_view(t) or is_smart(t)):
                loc = self.tmp('cp')
                self.copy_construct(loc, t, v.a[0], st, fr, e)
                return Val('obj', loc)
            return v
        if t.startswith(('std::function<', 'std::__detail', '__gnu_cxx::__normal_iterator', 'std::_Rb_tree', 'std::reference_wrapper', 'std::basic_string_view')) and len(real) == 1:
            return self.rv(real[0], st, fr)
        loc = self.tmp('t')
        self.construct(loc, e, st, fr)
        return Val('obj', loc)

    # ------------------------------------------------------------------ calls
    def args(self, node, f, st, fr):
        vals = []
        ps = f['params'] if f else None
        pts = [p['t'] for p in ps] if ps is not None else fn_params(node['fn'])[0] if node.get('fn') else []
        for i, a in enumerate(node['args']):
            t = pts[i] if i < len(pts) else ''
            vals.append(self.arg(a, t, st, fr))
        return vals

    def arg(self, a, t, st, fr):
        if is_ref(t):
            s = strip_ref(t)
            # rvalue reference / const ref to scalar rvalue: value is enough
            if a['k'] in ('Int', 'Float', 'Bool', 'Char', 'Str', 'Bin', 'Cast') and not (a['k'] == 'Bin' and a['op'].endswith('=') and a['op'] not in ('==', '<=', '>=', '!=')):
                return self.rv(a, st, fr)
            return T.ptr(self.lv(a, st, fr))
        return self.rv(a, st, fr)

    def e_Call(self, e, st, fr):
        from . import intrinsics
        q = e.get('q')
        if q is None or e.get('fn') is None:
            # call through pointer / lambda object
            ce = e.get('ce')
            cv = self.rv(ce, st, fr) if ce else UNDEF
            if isinstance(cv, Val) and cv.tag == 'obj':
                w = st.mem.get(cv.a[0])
                if w is not None:
                    cv = w
            if isinstance(cv, Val) and cv.tag == 'lambda':
                vals = [self.lvarg(a, st, fr) for a in e['args']]
                return self.call_lambda(cv, vals, st, fr, e)
            if isinstance(cv, Val) and cv.tag == 'func' and cv.a[0] in self.P.functions:
                f = self.P.functions[cv.a[0]]
                return self.do_call(e, f['q'], cv.a[0], f, st, fr)
            vals = [self.rv(a, st, fr) for a in e['args']]
            self.effect('call', st, node=e, fr=fr, q='<indirect>', fn='', obj=cv, args=vals)
            return self.fresh('<indirect>', e.get('t', ''), [cv] + vals, st, False)
        if q in self.user_intr:
            raw = set(self.raw)
            if raw:
                self.given(e['args'], fr)
            self.hooked += 1
            r = self.user_intr[q](self, e, st, fr)
            if r is not NotImplemented:
                return r
            self.raw |= raw
        r = intrinsics.call(self, e, q, st, fr)
        if r is not NotImplemented:
            return r
        fn = e['fn']
        f = self.P.functions.get(fn)
        if e.get('virt') and not e.get('qualcall'):
            tgt = self.resolve.get(q) or self.resolve.get(fn)
            if tgt is None and e.get('obj') is not None:
                oe = e['obj']
                snap = self.snap()
                self.quiet += 1
                probe = st.fork()
                ol = self.deref(self.rv(oe, probe, fr), probe) if is_ptr(oe.get('t', '')) else self.lv(oe, probe, fr)
                self.quiet -= 1
                self.restore(snap)
                if isinstance(ol[0], Val) and ol[0].tag == 'op' and ol[0].a[0] == 'iteloc' and ol[1] == ():
                    # one of two objects: call on each
                    if is_ptr(oe.get('t', '')):
                        self.rv(oe, st, fr)
                    else:
                        self.lv(oe, st, fr)
                    c, pa, pb = ol[0].a[1]
                    sa, sb = st.fork(c), st.fork(T.b_not(c))
                    ot = oe.get('t', '')
                    ot = strip_cv(ot[:-1].strip()) if is_ptr(ot) else ot
                    va = self.e_Call(dict(e, obj={'k': 'Loc', 'loc': self.deref(pa, sa), 't': ot}), sa, fr)
                    vb = self.e_Call(dict(e, obj={'k': 'Loc', 'loc': self.deref(pb, sb), 't': ot}), sb, fr)
                    st.mem = self.merge2(c, sa.mem, sb.mem)
                    if isinstance(va, Poly) != isinstance(vb, Poly):
                        va, vb = T.to_num(va), T.to_num(vb)
                    return T.ite(c, va, vb)
                d = self.dyntype(probe, ol)
                if d is not None:
                    tgt = self.final_overrider(d, fn)
                    if tgt not in self.P.functions:
                        tgt = None
            if tgt is not None:
                f = self.P.functions[tgt] if isinstance(tgt, str) else tgt
            else:
                ov = self.P.overriders.get(fn, [])
                if ov:
                    f = None
                elif f is None:
                    f = None
        return self.do_call(e, q, fn, f, st, fr)

    def dyntype(self, st, loc):
        t = st.mem.get((loc[0], loc[1] + (('f', '#type'),)))
        return t.a[0] if isinstance(t, Val) and t.tag == 'str' else None

    def derives(self, t, base):
        if t == base:
            return True
        r = self.P.records.get(t)
        return r is not None and any(self.derives(b, base) for b in r['bases'])

    def final_overrider(self, t, fn):
        """the method a virtual call of fn reaches on an object of class t"""
        r = self.P.records.get(t)
        if r is None:
            return None
        for m in r['methods']:
            if m['key'] == fn or fn in m['ov']:
                return m['key']
        for b in r['bases']:
            k = self.final_overrider(b, fn)
            if k:
                return k
        return None

    def lvarg(self, a, st, fr):
        if a['k'] in ('Ref', 'Mem', 'Idx'):
            return T.ptr(self.lv(a, st, fr)) if not is_num(a.get('t', ''), self.P) and not is_ptr(a.get('t', '')) and not is_bool(a.get('t', '')) else self.rv(a, st, fr)
        return self.rv(a, st, fr)

    def do_call(self, e, q, fn, f, st, fr):
        obj = None
        if e.get('obj') is not None:
            oe = e['obj']
            if is_ptr(oe.get('t', '')):
                obj = self.deref(self.rv(oe, st, fr), st)
            else:
                obj = self.lv(oe, st, fr)
        if f is not None and q not in self.opaque and fn not in self.opaque and len(self.stack) < self.maxdepth and (not any(x == fn for x in self.stack) or self.recurse is not None and self.recurse(q)):
            if len(self.stack) > 150 and self.settled(st) and sum(1 for x in self.stack if x == fn) > 120:
                self.ub(st, 'call', 'more than 120 nested calls of itself on an input of a few characters', (q, ()), e, fr)
                raise AnalysisError('recursion of %s does not end' % q)
            vals = self.args(e, f, st, fr)
            # static member / free function
            return self.inline(f, vals, obj, st, fr, e)
        vals = self.args(e, None, st, fr)
        return self.opaque_call(e, q, fn, obj, vals, st, fr)

    def argval(self, v, t, st):
        """what an argument denotes for the record: references to scalars show the value"""
        if isinstance(v, Val) and v.tag == 'ptr' and is_ref(t):
            s = strip_ref(t)
            if t.startswith('const ') or is_string(s):
                if is_num(s, self.P) or is_bool(s) or is_string(s):
                    return self.load(st, v.a[0], s)
                if is_ptr(t):
                    return self.load(st, v.a[0], s)
            return Val('obj', v.a[0])
        return v

    def opaque_call(self, e, q, fn, obj, vals, st, fr, ret_t=None, pure=None):
        pts, quals = fn_params(fn)
        shown = [self.argval(v, pts[i] if i < len(pts) else '', st) for i, v in enumerate(vals)]
        const_m = e.get('cm', False)
        objv = None
        if obj is not None:
            w = st.mem.get(obj)
            objv = w if isinstance(w, Val) and w.tag in ('op', 'ite') else Val('obj', obj)
        mut = []
        for i, v in enumerate(vals):
            t = pts[i] if i < len(pts) else ''
            if isinstance(v, Val) and v.tag in ('ptr', 'obj'):
                if (is_ref(t) or is_ptr(t)) and not self.const_pointee(t):
                    if t.rstrip().endswith('&&') and '~' in str(v.a[0][0]):
                        continue
                    mut.append((i, v.a[0]))
        if pure is None:
            pure = (q in self.pure) or ((obj is None or const_m) and not mut and strip_cv(e.get('t', '')) not in ('void',) and self.is_pure_name(q))
        eff = None
        if not pure:
            eff = self.effect('call', st, node=e, fr=fr, q=q, fn=fn, obj=objv, args=shown, argt=pts,
                              argloc=[v.a[0] if isinstance(v, Val) and v.tag in ('ptr', 'obj') else None for v in vals])
        ret = self.fresh(q, ret_t or e.get('t', ''), ([objv] if objv is not None else []) + shown, st, pure)
        if eff is not None:
            eff.ret = ret
        if not pure:
            n = self.callseq.get(q, 0)
            for i, loc in mut:
                path = loc[1]
                if path and path[-1][0] in ('i', '&'):
                    # buffer: everything reachable from the pointer
                    base = (loc[0], path[:-1])
                else:
                    base = loc
                self.havoc(st, base, '%s.%d#%d' % (q.split('::')[-1], i, n))
            if obj is not None and not const_m:
                if not q.startswith('std::'):
                    self.havoc(st, obj, '%s#%d' % (q.split('::')[-1], n))
        if self.noreturn(q):
            self._noret = True
        return ret

    def is_pure_name(self, q):
        return True

    def noreturn(self, q):
        return q in ('exit', 'std::exit', 'abort', 'std::abort', 'std::terminate', '_exit', 'std::quick_exit') or q == '__assert_fail'

    def const_pointee(self, t):
        s = t.strip()
        while s.endswith('&'):
            s = s[:-1].strip()
        if s.endswith('*const'):
            s = s[:-5].strip()
        if s.endswith('*'):
            inner = s[:-1].strip()
            return inner.startswith('const ') or inner.endswith('const')
        return s.startswith('const ')

    def fresh(self, q, t, vals, st, pure):
        """result of an opaque call"""
        if strip_cv(t) == 'void':
            if not pure:
                self.callseq[q] = self.callseq.get(q, 0) + 1
            return VOID
        if pure:
            tag = q
            key = tuple(vals)
        else:
            n = self.callseq.get(q, 0) + 1
            self.callseq[q] = n
            tag = '%s#%d' % (q, n)
            key = ()
            if self.loops:
                key = (self.loops[-1].sym,)
        s = strip_ref(t)
        root = T.op(tag, *key)
        if is_ref(t):
            if is_num(s, self.P) or is_bool(s) or is_ptr(t) or is_string(s):
                return Val('lref', (root, ()))
            return Val('obj', (root, ()))
        if is_num(s, self.P):
            return Poly.atom(('app', tag, key))
        if is_bool(s):
            return Val('bool', root)
        if s.endswith('*'):
            return T.ptr((root, (self.ptrtail(s),)))
        if is_string(s):
            return root
        return Val('obj', (root, ()))

    def inline(self, f, vals, obj, st, fr, node):
        return self.inline_body(f['params'], f['body'], f, vals, obj, st, fr, node, None)

    def no_value(self, f, out, fr):
        rt = f.get('rt') or 'void'
        if rt == 'void' or 'auto' in rt or f.get('ctor') or '~' in f['q'] or f['q'] == 'main' or 'operator ' in f['q'] or any(g != TRUE for g in out.guards) or not self.settled(out):
            return
        self.ub(out, 'value', 'the function ends without returning one', (f['q'], ()), {'l': f.get('e') or f.get('l')}, fr)

    def inline_body(self, params, body, f, vals, obj, st, fr, node, cap):
        nf = self.new_frame(f if cap is None else None, cap)
        if cap is not None:
            nf.file = fr.file if not cap.file else cap.file
            nf.fn = f
        nf.this = obj if obj is not None else (cap.this if cap else None)
        for i, p in enumerate(params):
            if i < len(vals):
                self.bind_param(nf, st, p, vals[i])
        if f.get('key'):
            self.stack.append(f['key'])
            facts.VISITED.add(f['q'])
        else:
            self.stack.append('<lambda>')
        og = self.outer_guards
        self.outer_guards = og + st.guards
        inner = State(st.mem, ())
        try:
            if f.get('ctor'):
                self.run_inits(nf, f, inner)
            out = self.exec(body, inner, nf)
        finally:
            self.outer_guards = og
            self.stack.pop()
        rets = list(nf.returns)
        if out is not None:
            if cap is None:
                self.no_value(f, out, nf)
            rets.append((out.guards, out.mem, VOID))
        if not rets:
            self._noret = True
            return UNDEF
        val, mem = self.merge_rets(rets)
        st.mem = mem
        live = T.b_or(*[T.b_and(*r[0]) for r in rets])
        if live != TRUE:
            st.guards = st.guards + (live,)
        rt = f.get('rt', '')
        if is_ref(rt):
            if isinstance(val, Val) and val.tag in ('ptr',):
                s = strip_ref(rt)
                if is_num(s, self.P) or is_bool(s) or is_ptr(rt) or is_string(s) or arr_dims(s):
                    return self.as_rvalue(val, st, node)
                return Val('obj', val.a[0])
            if isinstance(val, Val) and val.tag == 'ite':
                return Val('obj', (T.op('iteloc', *val.a), ()))
        return val

    def as_rvalue(self, val, st, node):
        return Val('lref', val.a[0])


# rvalue use of a reference-returning call
_orig_rv = Interp.rv


def _rv(self, e, st, fr):
    v = _orig_rv(self, e, st, fr)
    if isinstance(v, Val) and v.tag == 'lref':
        return self.ld(st, v.a[0], e.get('t', 'double'))
    return v


Interp.rv = _rv
_orig_lv = Interp.lv


def _lv(self, e, st, fr):
    if e['k'] == 'Call':
        v = _orig_rv(self, e, st, fr)
        if isinstance(v, Val) and v.tag in ('lref', 'obj'):
            return v.a[0]
        loc = self.tmp()
        self.put(st, loc, v)
        return loc
    return _orig_lv(self, e, st, fr)


Interp.lv = _lv
