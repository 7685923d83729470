"""Helpers shared by the rules."""
from fractions import Fraction
from ..core import facts, interp, terms as T, evalt
from ..core.terms import Poly, Val, ZERO, ONE, TRUE, FALSE
from ..core.facts import AnalysisError

# component storage order documented in the repository (diagonal first, then super/sub diagonals)
F9 = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (0, 1): 3, (1, 2): 4, (2, 0): 5, (1, 0): 6, (2, 1): 7, (0, 2): 8}
S6 = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (0, 1): 3, (1, 2): 4, (2, 0): 5, (1, 0): 3, (2, 1): 4, (0, 2): 5}
XYZ = 'xyz'


def c(x):
    return Poly.const(Fraction(x) if not isinstance(x, float) else Fraction(str(x)))


def cell(root, *idx):
    """initial content of root[idx]"""
    return Poly.atom(('ld', (root, tuple(('i', Poly.const(i) if isinstance(i, int) else i) for i in idx)), ''))


def full(root):
    return [[cell(root, F9[i, j]) for j in range(3)] for i in range(3)]


def sym(root):
    return [[cell(root, S6[i, j]) for j in range(3)] for i in range(3)]


def mm(A, B):
    return [[sum_([A[i][k] * B[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]


def tr(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def madd(A, B):
    return [[A[i][j] + B[i][j] for j in range(3)] for i in range(3)]


def mscale(a, A):
    a = a if isinstance(a, Poly) else c(a)
    return [[a * A[i][j] for j in range(3)] for i in range(3)]


def sum_(xs):
    r = ZERO
    for x in xs:
        r = r + x
    return r


def det(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def adj(M):
    def minor(i, j):
        r = [k for k in range(3) if k != i]
        s = [k for k in range(3) if k != j]
        return M[r[0]][s[0]] * M[r[1]][s[1]] - M[r[0]][s[1]] * M[r[1]][s[0]]
    return [[minor(j, i).scale((-1) ** (i + j)) for j in range(3)] for i in range(3)]


class Run:
    """one abstract evaluation of a function"""

    def __init__(self, P, fn, args=None, this=None, mem=None, **kw):
        self.I = kw.pop('machine', interp.Interp)(P, **kw)
        self.fn = fn
        self.ret, self.st = self.I.run(fn, args, this, mem)
        self.dead = self.st is None      # no path returns
        if self.dead:
            self.st = interp.State({}, ())
        self.trace = self.I.trace

    def at(self, root, *idx, t='double'):
        base = root if isinstance(root, tuple) else (root, ())
        loc = (base[0], base[1] + tuple(('i', Poly.const(i) if isinstance(i, int) else i) for i in idx))
        return self.I.load(self.st, loc, t)

    def fld(self, root, *names, t='double'):
        base = root if isinstance(root, tuple) else (root, ())
        return self.I.load(self.st, (base[0], base[1] + tuple(('f', n) for n in names)), t)


def where(fn, P):
    return '%s:%s' % (P.rel(fn), fn.get('line', fn.get('l', '')))


def eq(R, rule, inst, wh, got, want, domain=None, syms=None, cells=None, n=6, tol=1e-7):
    why = []
    r = evalt.same(got, want, domain=domain, why=why, syms=syms, cells=cells, n=n, tol=tol)
    msg = 'computes %s, required %s (%s)' % (T.vstr(got)[:300], T.vstr(want)[:300], '; '.join(why)[:120])
    return R.check(r, rule, inst, wh, msg)


def nowrites_outside(R, rule, inst, run, allowed, wh):
    """the function writes nothing but the listed roots"""
    badw = [e for e in run.trace if e.kind == 'write' and not any(e.loc[0] == a or (isinstance(a, tuple) and e.loc[0] == a[0] and e.loc[1][:len(a[1])] == a[1]) for a in allowed)]
    R.check(not badw, rule, inst, badw[0].where() if badw else wh, 'writes %s' % (T.lstr(badw[0].loc) if badw else ''))


def eig_intr(I, e, st, fr):
    """the symmetric eigen solver (verified separately), as an eigenvalue / eigenvector term"""
    t = I.rv(e['args'][0], st, fr)
    s6 = [T.to_num(I.load(st, I.index(t, Poly.const(k), None), 'double')) for k in range(6)]
    for k in range(3):
        I.store(st, I.lv(e['args'][1 + k], st, fr), T.app('eigval', Poly.const(k), *s6))
    for k in range(3):
        p = I.rv(e['args'][4 + k], st, fr)
        for i in range(3):
            I.store(st, I.index(p, Poly.const(i), None), T.app('eigvec', Poly.const(k), Poly.const(i), *s6))
    return T.VOID


def fresh(P, cls, root='this', path=()):
    """memory of a newly default-constructed object: empty containers, default member initialisers"""
    mem = {}
    for r in P.records.values():
        if r['q'] == cls or r.get('t') == cls:
            rec = r
            break
    else:
        raise AnalysisError('class %s not found' % cls)
    for b in rec['bases']:
        mem.update(fresh(P, b, root, path))
    for f in rec['fields']:
        loc = (root, path + (('f', f['n']),))
        t = interp.strip_ref(f['t'])
        i = f.get('init')
        if t.startswith(('std::map<', 'std::set<', 'std::unordered_map<', 'std::unordered_set<')):
            mem[(root, loc[1] + (('*',),))] = Val('fill', None)
            mem[(root, loc[1] + (('f', '#size'),))] = ZERO
            mem[(root, loc[1] + (('f', '#keys'),))] = Val('keys')
        elif t.startswith(('std::vector<', 'std::deque<')):
            mem[(root, loc[1] + (('f', '#size'),))] = ZERO
        elif interp.is_string(t):
            mem[loc] = T.strv(i['v'] if i and i['k'] == 'Str' else '')
        elif i and i['k'] in ('Int', 'Float'):
            mem[loc] = c(float(i['v'])) if i['k'] == 'Float' else Poly.const(int(i['v']))
        elif i and i['k'] == 'Bool':
            mem[loc] = TRUE if i['v'] in (True, 'true', '1', 1) else FALSE
    return mem


class Chain:
    """successive calls on one object: the memory of the object is carried from call to call"""

    def __init__(self, P, cls, R=None, mem=None, keep=('this',), **kw):
        self.P, self.cls, self.R, self.kw, self.keep = P, cls, R, kw, keep
        self.mem = fresh(P, cls) if mem is None else dict(mem)

    def call(self, name, args=None, mem=None, n=None, pred=None, **kw):
        f = self.P.fn(name if '::' in name else self.cls + '::' + name, n, pred)
        if self.R is not None:
            self.R.used(f)
        m = dict(self.mem)
        m.update(mem or {})
        k = dict(self.kw)
        k.update(kw)
        r = Run(self.P, f, args=args, mem=m, **k)
        self.mem = {a: b for a, b in r.st.mem.items() if a[0] in self.keep}
        return r


def strvec(r, root, path=()):
    """list of strings held by a vector"""
    loc = (root, path)
    n = r.I.size_of(r.st, loc, '').as_int()
    if n is None:
        return None
    out = []
    for i in range(n):
        v = r.I.load(r.st, (root, path + (('i', Poly.const(i)),)), 'std::basic_string<char>')
        out.append(v.a[0] if isinstance(v, Val) and v.tag == 'str' else T.vstr(v))
    return out


def vecmem(root, vals, path=()):
    m = {(root, path + (('f', '#size'),)): Poly.const(len(vals))}
    for i, v in enumerate(vals):
        m[(root, path + (('i', Poly.const(i)),))] = v
    return m


def enum(P, name):
    for e in P.enums.values():
        for x in e['c']:
            if x['n'] == name:
                return Poly.const(int(x['v']))
    raise AnalysisError('enumerator %s not found' % name)


def glue(P, R, rule):
    """the conditions of the model are applied to its own fields, with the times they were given"""
    MDB, BM = 'nimble::ModelDataBase::', 'nimble::BoundaryConditionManager::'
    got = []

    def view(I, e, st, fr):
        v = I.rv(e['args'][0], st, fr)
        if isinstance(v, Val) and v.tag == 'str':
            return NotImplemented
        return Val('obj', ('view.%s' % v, ()))

    def rec(n):
        def h(I, e, st, fr):
            got.append((n, [T.vstr(I.rv(a, st, fr)) if i < n else str(I.lv(a, st, fr)[0]) if I.lv(a, st, fr)[0].startswith('view') else src(I, st, I.lv(a, st, fr)) for i, a in enumerate(e['args'])]))
            return T.VOID
        return h

    def src(I, st, l):
        fb = I.fallback(st, l)
        return str(fb.a[0][0]) if fb.tag == 'from' else '?'
    ids = ['velocity', 'reference_coordinate', 'displacement', 'acceleration', 'internal_force', 'external_force', 'lumped_mass', 'contact_force']

    def fid(I, e, st, fr):
        v = T.vstr(I.rv(e['args'][0], st, fr)).strip('"')
        return Poly.const(ids.index(v)) if v in ids else Poly.const(-1)
    intr = {MDB + 'GetVectorNodeData': view, MDB + 'GetFieldId': fid, 'nimble::DataManager::GetBoundaryConditionManager': lambda I, e, st, fr: T.ptr(('new~bcm', (('&',),))),
            BM + 'ApplyInitialConditions': rec(0), BM + 'ApplyKinematicBC': rec(2)}
    V = lambda s: 'view.%d' % ids.index(s)
    for name, args, want in (('ApplyInitialConditions', [Val('obj', ('dm', ()))], (0, [V('reference_coordinate'), V('velocity')])),
                             ('ApplyKinematicConditions', [Val('obj', ('dm', ())), Poly.sym('tc'), Poly.sym('tp')], (2, ['tc', 'tp', V('reference_coordinate'), V('displacement'), V('velocity')]))):
        f = P.fn(MDB + name)
        R.used(f)
        del got[:]
        r = Run(P, f, args=args, intr=intr)
        R.check(got == [want], rule, '%s of the model' % name, where(f, P), 'applied as %s, required %s (fields in the order %s)' % (got, [want], ', '.join(ids)))
