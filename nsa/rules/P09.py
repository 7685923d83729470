"""The linear system of the quasistatic solver: sparsity structure, matrix container, products and conjugate gradients."""
from .lib import *

UNITS = ['nimble_linear_solver.cc', 'nimble_mesh_utils.cc', 'quasistatic_time_integrator.cc', 'nimble_genesis_mesh.cc']
NS = 'nimble::'
CRS = NS + 'CRSMatrixContainer'
DEN = NS + 'MatrixContainer'


def ints(root, xs, path=()):
    return vecmem(root, [Poly.const(x) for x in xs], path)


def stopped(r):
    return any(e.kind in ('throw', 'abort', 'terminate') and not e.guards or e.kind == 'call' and e.q in ('abort', 'exit', 'MPI_Abort', 'std::abort', 'std::terminate') and not e.guards for e in r.trace)


# mesh name -> (dim, blocks [(id, nodes per element, connectivity)], unknown node of each node)
MESHES = {
    'two hexahedra': (3, [(1, 8, [0, 1, 2, 3, 4, 5, 6, 7, 1, 8, 9, 2, 5, 10, 11, 6])], list(range(12))),
    'two blocks, permuted': (2, [(2, 4, [0, 1, 4, 3]), (5, 4, [4, 5, 2, 1, 7, 8, 5, 4])], [3, 0, 7, 1, 8, 2, 6, 4, 5]),
    'two nodes on one unknown': (2, [(1, 3, [0, 1, 2, 3, 4, 5])], [0, 1, 2, 1, 3, 0]),
    'separate elements': (1, [(1, 2, [0, 1, 2, 3]), (2, 2, [4, 5])], [5, 4, 3, 2, 1, 0]),
}
PATTERNS = {
    'tridiagonal': [(i, j) for i in range(5) for j in range(5) if abs(i - j) <= 1],
    'full': [(i, j) for i in range(4) for j in range(4)],
    'arrow': [(i, j) for i in range(5) for j in range(5) if i == j or i == 0 or j == 0 or i == 4 and j == 4],
    'diagonal': [(i, i) for i in range(4)],
    'irregular': [(0, 0), (0, 3), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 0), (3, 2), (3, 3), (4, 4)],
    'one': [(0, 0)],
}


def run(P, R):
    R.rule('structure', 'the nonzeros are exactly the pairs of unknowns that share an element, sorted by row and column', 4)
    R.rule('entry', 'an entry (i,j) is one stored value, distinct from all others; an entry outside the structure stops the run', 40)
    R.rule('set', 'setting all, row or column values changes exactly those entries', 20)
    R.rule('product', 'matrix-vector products and inner products equal their definition', 12)
    R.rule('precondition', 'the preconditioner is the inverse of the diagonal', 4)
    R.rule('solve', 'each iteration is the preconditioned conjugate gradient step, and success is reported exactly on convergence', 12)
    R.rule('reuse', 'work arrays fit the system and a later system gets its own', 3)
    for n, m in MESHES.items():
        R.guard('structure', n, structure, P, R, n, *m)
    for n, p in PATTERNS.items():
        for cls in (CRS, DEN):
            R.guard('entry', n, entries, P, R, n, p, cls)
    R.guard('entry', 'wide row', wide, P, R, 100)
    R.guard('product', 'inner', inner, P, R)
    for n in ('tridiagonal', 'full', 'diagonal', 'irregular'):
        R.guard('precondition', n, precondition, P, R, n, PATTERNS[n])
    for n, its in ((1, 0), (1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 3), (5, 4), (6, 5)):
        R.guard('solve', '%d unknowns, %d iterations' % (n, its), solve, P, R, n, its)
    R.guard('reuse', '', reuse, P, R)


def structure(P, R, nm, dim, blocks, ls):
    f = P.fn(NS + 'DetermineTangentMatrixNonzeroStructure')
    R.used(f)
    wh = where(f, P)
    mem = {}
    mem.update(fresh(P, NS + 'GenesisMesh', 'arg0'))
    mem[('arg0', (('f', 'dim_'),))] = Poly.const(dim)
    mem.update(ints('arg0', [b[0] for b in blocks], (('f', 'block_ids_'),)))
    for fld in ('block_num_nodes_per_elem_', 'block_elem_connectivity_'):
        p = (('f', fld),)
        mem[('arg0', p + (('f', '#keys'),))] = Val('keys', *[Poly.const(b[0]) for b in blocks])
        mem[('arg0', p + (('f', '#size'),))] = Poly.const(len(blocks))
    for b, npe, conn in blocks:
        mem[('arg0', (('f', 'block_num_nodes_per_elem_'), ('i', Poly.const(b))))] = Poly.const(npe)
        mem.update(ints('arg0', conn, (('f', 'block_elem_connectivity_'), ('i', Poly.const(b)))))
    mem.update(ints('arg1', ls))
    r = Run(P, f, mem=mem, maxsteps=4000000)
    want = set()
    for b, npe, conn in blocks:
        for e in range(len(conn) // npe):
            dof = [ls[n] * dim + d for n in conn[npe * e:npe * e + npe] for d in range(dim)]
            want |= {(i, j) for i in dof for j in dof}
    want = sorted(want)
    k = r.I.size_of(r.st, ('arg2', ()), '').as_int()
    k2 = r.I.size_of(r.st, ('arg3', ()), '').as_int()
    if k is None or k2 is None:
        return R.check(None, 'structure', nm, wh, 'number of entries not determined')
    got = [(T.to_num(r.at('arg2', i, t='int')), T.to_num(r.at('arg3', i, t='int'))) for i in range(max(k, k2))]
    if any(not x.is_const() for g in got for x in g):
        bad = next(g for g in got if any(not x.is_const() for x in g))
        return R.check(None, 'structure', nm, wh, 'entry %s' % (bad,))
    got = [(a.as_int(), b.as_int()) for a, b in got]
    d = set(got) ^ set(want)
    R.check(k == k2 and got == want, 'structure', nm, wh, '%d entries, %d required%s' % (len(got), len(want), ', first difference %s' % (min(d),) if d else ', not sorted or repeated'))


class Mat:
    """a matrix container with its structure allocated"""

    def __init__(self, P, R, cls, pat, tag='a', fill=True):
        self.cls, self.pat = cls, pat
        self.n = max(i for i, j in pat) + 1
        ctor = P.fn(cls + '::' + cls.split('::')[-1], 0)
        r = Run(P, ctor, args=[])
        mem = fresh(P, cls)
        mem.update({k: v for k, v in r.st.mem.items() if k[0] == 'this'})
        self.C = Chain(P, cls, R, mem)
        m = ints('ii', [i for i, j in pat])
        m.update(ints('jj', [j for i, j in pat]))
        self.C.call('AllocateNonzeros', [Val('obj', ('ii', ())), Val('obj', ('jj', ()))], mem=m)
        if fill:
            for i, j in pat:
                loc = self.loc(i, j)
                if loc is not None:
                    self.C.mem[loc] = Poly.sym('%s%d%d' % (tag, i, j))

    def loc(self, i, j):
        """where the entry lives; None when the access stops the run"""
        keep = dict(self.C.mem)
        r = self.C.call('operator()', [Poly.const(i), Poly.const(j)], pred=lambda f: f['rt'].strip().endswith('&'))
        self.C.mem = keep
        if stopped(r):
            return None
        v = r.ret
        if isinstance(v, Val) and v.tag in ('ptr', 'lref'):
            l = v.a[0]
            if l[1] and l[1][-1] == ('&',):
                l = (l[0], l[1][:-1])
            return l
        raise AnalysisError('entry (%d,%d) is %s' % (i, j, T.vstr(v)))

    def get(self, i, j):
        keep = dict(self.C.mem)
        r = self.C.call('operator()', [Poly.const(i), Poly.const(j)], pred=lambda f: not f['rt'].strip().endswith('&'))
        self.C.mem = keep
        return None if stopped(r) else T.to_num(r.ret)


def entries(P, R, nm, pat, cls):
    short = cls.split('::')[-1]
    f = P.fn(cls + '::AllocateNonzeros')
    wh = where(f, P)
    M = Mat(P, R, cls, pat)
    n = M.n
    dense = cls == DEN
    want = {(i, j): Poly.sym('a%d%d' % (i, j)) for i, j in pat}
    locs = {}
    allp = [(i, j) for i in range(n) for j in range(n)]
    for i, j in allp:
        l = M.loc(i, j)
        if (i, j) in want or dense:
            if l is None:
                R.check(False, 'entry', '%s %s (%d,%d)' % (short, nm, i, j), wh, 'the entry cannot be reached')
                continue
            R.check(l not in locs, 'entry', '%s %s (%d,%d) has its own storage' % (short, nm, i, j), wh, 'shares storage with %s' % (locs.get(l),))
            locs[l] = (i, j)
            g = M.get(i, j)
            w = want.get((i, j), ZERO)
            R.check(g is not None and g == w, 'entry', '%s %s (%d,%d) reads what was stored' % (short, nm, i, j), wh, 'reads %s' % (T.vstr(g) if g is not None else 'nothing'))
        else:
            R.check(l is None and M.get(i, j) is None, 'entry', '%s %s (%d,%d) outside the structure' % (short, nm, i, j), wh, 'an absent entry is %s' % (l,))
    r = M.C.call('NumNonzeros')
    R.check(T.to_num(r.ret) == Poly.const(n * n if dense else len(pat)), 'entry', '%s %s number of entries' % (short, nm), wh, T.vstr(r.ret))
    if not dense:
        r = M.C.call('NumRows')
        R.check(T.to_num(r.ret) == Poly.const(n), 'entry', '%s %s number of rows' % (short, nm), wh, T.vstr(r.ret))
    base = dict(M.C.mem)
    have = allp if dense else pat
    v = Poly.sym('v')
    sets = [('SetAllValues', [v], lambda i, j: True)]
    for k in range(n):
        sets += [('SetRowValues', [Poly.const(k), v], lambda i, j, k=k: i == k), ('SetColumnValues', [Poly.const(k), v], lambda i, j, k=k: j == k)]
    for name, args, sel in sets:
        M.C.mem = dict(base)
        M.C.call(name, args)
        bad = []
        for i, j in have:
            w = v if sel(i, j) else want.get((i, j), ZERO)
            g = M.get(i, j)
            if g is None or g != w:
                bad.append('entry (%d,%d) is %s, required %s' % (i, j, T.vstr(g) if g is not None else None, T.vstr(w)))
        R.check(not bad, 'set', '%s %s %s(%s)' % (short, nm, name, args[0] if len(args) > 1 else ''), where(P.fn(cls + '::' + name), P), bad[0] if bad else '')
    M.C.mem = dict(base)
    if not dense:
        for meth in ('MatVec', 'DiagonalMatrixMatVec'):
            if meth == 'DiagonalMatrixMatVec' and nm not in ('diagonal', 'one'):
                continue
            r = M.C.call(meth, [T.ptr(('x', (('i', ZERO),))), T.ptr(('y', (('i', ZERO),)))])
            for i in range(n):
                eq(R, 'product', '%s %s row %d' % (nm, meth, i), where(P.fn(cls + '::' + meth), P), T.to_num(r.at('y', i)), sum_([want[p] * cell('x', p[1]) for p in pat if p[0] == i]))
            nowrites_outside(R, 'product', '%s %s writes only the result' % (nm, meth), r, ['y'], where(P.fn(cls + '::' + meth), P))
        if nm == 'full':
            r = M.C.call('DiagonalMatrixMatVec', [T.ptr(('x', (('i', ZERO),))), T.ptr(('y', (('i', ZERO),)))])
            R.check(stopped(r), 'product', 'a matrix that is not diagonal is refused', wh, 'is multiplied as if it were diagonal')


def wide(P, R, n):
    """a row as long as one of a large element patch, between two short ones"""
    wh = where(P.fn(CRS + '::FindIndex'), P)
    cols = [j for j in range(n) if j % 7 != 3 or j == n - 1]
    pat = [(0, 0), (0, n - 1)] + [(1, j) for j in cols] + [(i, i) for i in range(2, n)]
    M = Mat(P, R, CRS, pat, fill=False)
    seen = set()
    for j in range(n):
        l = M.loc(1, j)
        if j in cols:
            R.check(l is not None and l not in seen, 'entry', 'wide row, column %d' % j, wh, 'the entry cannot be reached' if l is None else 'shares storage with another entry')
            seen.add(l)
        else:
            R.check(l is None, 'entry', 'wide row, absent column %d' % j, wh, 'an absent entry is %s' % (l,))


def red(I, e, st, fr):
    """MPI_Allreduce of one double: the value summed over the ranks"""
    op = I.rv(e['args'][4], st, fr)
    src, dst = I.rv(e['args'][0], st, fr), I.rv(e['args'][1], st, fr)
    v = T.to_num(I.load(st, I.index(src, ZERO, None), 'double'))
    n = I.rv(e['args'][2], st, fr)
    I.effect('call', st, node=e, fr=fr, q='MPI_Allreduce', val=T.op('red', v, n, op))
    I.store(st, I.index(dst, ZERO, None), T.app('allsum', v))
    return ZERO


def ident(I, e, st, fr):
    """MPI_Allreduce on one rank"""
    src, dst = I.rv(e['args'][0], st, fr), I.rv(e['args'][1], st, fr)
    I.store(st, I.index(dst, ZERO, None), I.load(st, I.index(src, ZERO, None), 'double'))
    return ZERO


def inner(P, R):
    for f in [g for g in P.functions.values() if g['q'] == NS + 'InnerProduct']:
        R.used(f)
        wh = where(f, P)
        n = 4
        if len(f['params']) == 3:
            args, mem, a, b = [Poly.const(n), None, None], {}, 'arg1', 'arg2'
        else:
            args, a, b = None, 'arg0', 'arg1'
            mem = vecmem(a, [cell(a, i) for i in range(n)])
            mem.update(vecmem(b, [cell(b, i) for i in range(n)]))
        r = Run(P, f, args=args, mem=mem, intr={'MPI_Allreduce': red})
        eq(R, 'product', 'inner product, %d arguments' % len(f['params']), wh, T.to_num(r.ret), T.app('allsum', sum_([cell(a, i) * cell(b, i) for i in range(n)])))
        cs = [e for e in r.trace if e.kind == 'call' and e.q == 'MPI_Allreduce']
        R.check(len(cs) == 1 and 'MPI_SUM' in T.vstr(cs[0].val).upper() or len(cs) == 1 and 'op_sum' in T.vstr(cs[0].val), 'product', 'inner product is summed over ranks, %d arguments' % len(f['params']), wh, T.vstr(cs[0].val) if cs else 'no reduction')


def put(M, root):
    return {(root, k[1]): v for k, v in M.C.mem.items()}


def precondition(P, R, nm, pat):
    f = P.fn(NS + 'PopulateDiagonalPreconditioner')
    R.used(f)
    wh = where(f, P)
    A = Mat(P, R, CRS, pat)
    n = A.n
    D = Chain(P, CRS, R, {k: v for k, v in Mat(P, R, CRS, PATTERNS['one']).C.mem.items()})
    D.mem = fresh(P, CRS)
    D.mem[('this', (('f', 'num_rows_'),))] = ZERO
    D.call('AllocateDiagonalMatrix', [Poly.const(n)])
    mem = put(A, 'arg0')
    mem.update({('arg1', k[1]): v for k, v in D.mem.items()})
    r = Run(P, f, mem=mem)
    X = Chain(P, CRS, R, {('this', k[1]): v for k, v in r.st.mem.items() if k[0] == 'arg1'})
    r = X.call('DiagonalMatrixMatVec', [T.ptr(('x', (('i', ZERO),))), T.ptr(('y', (('i', ZERO),)))])
    for i in range(n):
        eq(R, 'precondition', '%s row %d' % (nm, i), wh, T.to_num(r.at('y', i)), cell('x', i).div(Poly.sym('a%d%d' % (i, i))))


def solve(P, R, n, its):
    big, T.Poly.BIG = T.Poly.BIG, 6
    try:
        solve_(P, R, n, its)
    finally:
        T.Poly.BIG = big


def solve_(P, R, n, its):
    f = P.fn(NS + 'CG_SolveSystem')
    R.used(f)
    wh = where(f, P)
    pat = [(i, j) for i in range(n) for j in range(n)]
    A = Mat(P, R, CRS, pat)
    # symmetric matrix
    for i in range(n):
        for j in range(i):
            l = A.loc(i, j)
            A.C.mem[l] = Poly.sym('a%d%d' % (j, i))
    mem = put(A, 'arg0')
    mem.update(fresh(P, NS + 'CGScratchSpace', 'arg2'))
    ctor = [g for g in P.functions.values() if g['q'] == NS + 'CGScratchSpace::CGScratchSpace' and not g['params']]
    for k, v in Run(P, ctor[0], args=[]).st.mem.items() if ctor else ():
        if k[0] == 'this':
            mem[('arg2', k[1])] = v
    mem[('arg2', (('f', 'len_'),))] = ZERO
    mem.update({('arg2', (('f', 'M'),) + k[1]): v for k, v in fresh(P, CRS).items()})
    mem[('arg2', (('f', 'M'), ('f', 'num_rows_')))] = ZERO
    tol = Poly.sym('tol')
    r = Run(P, f, args=[None, None, None, None, None, tol, Poly.const(its)], mem=mem, intr={'MPI_Allreduce': ident}, peel=True, maxsteps=4000000)
    a = [[Poly.sym('a%d%d' % (min(i, j), max(i, j))) for j in range(n)] for i in range(n)]
    b = [cell('arg1', i) for i in range(n)]
    x = [cell('arg3', i) for i in range(n)]
    mv = lambda v: [sum_([a[i][j] * v[j] for j in range(n)]) for i in range(n)]
    dot = lambda u, v: sum_([u[i] * v[i] for i in range(n)])
    r0 = [b[i] - q for i, q in enumerate(mv(x))]
    d = [r0[i].div(a[i][i]) for i in range(n)]
    new = dot(r0, d)
    limit = tol * new
    on, xs, count = TRUE, list(x), ZERO
    for k in range(its):
        on = T.b_and(on, T.b_gt0(new - limit))
        q = mv(d)
        al = new.div(dot(d, q))
        x = [x[i] + al * d[i] for i in range(n)]
        r0 = [r0[i] - al * q[i] for i in range(n)]
        s = [r0[i].div(a[i][i]) for i in range(n)]
        old, new = new, dot(r0, s)
        d = [s[i] + new.div(old) * d[i] for i in range(n)]
        xs = [T.ite(on, x[i], xs[i]) for i in range(n)]
        count = T.ite(on, Poly.const(k + 1), count)
    import random

    def dom(seed):
        g = random.Random(seed)
        m = {'tol': g.choice([1e-9, 0.3, 0.02, 0.001])}
        for i in range(n):
            for j in range(i, n):
                m['a%d%d' % (i, j)] = g.uniform(3.0, 6.0) if i == j else g.uniform(-0.9, 0.9)
        return m
    lab = '%d unknowns, at most %d iterations' % (n, its)
    for i in range(n):
        eq(R, 'solve', '%s: x%d' % (lab, i), wh, T.to_num(r.at('arg3', i)), xs[i], syms=dom, n=24)
    # nothing is stored beyond the unknowns, neither in the solution nor in the scratch vectors
    first = interp.State(dict(mem), ())
    for loc in sorted((l for l in r.st.mem if l[0] in ('arg1', 'arg2', 'arg3') and l[1] and l[1][-1][0] == 'i' and isinstance(l[1][-1][1], Poly)
                       and not any(x == ('f', 'M') for x in l[1])), key=str):
        k = loc[1][-1][1].as_int()
        if k is None or 0 <= k < n:
            continue
        got = r.st.mem[loc]
        eq(R, 'solve', '%s: nothing beyond the unknowns (%s)' % (lab, T.lstr(loc)), wh, T.to_num(got), T.to_num(r.I.load(first, loc, 'double')), syms=dom, n=24)
    eq(R, 'solve', '%s: iterations' % lab, wh, T.to_num(r.at('arg4', 0) if False else r.I.load(r.st, ('arg4', ()), 'int')), T.to_num(count), syms=dom, n=24)
    ok = T.b_not(T.b_gt0(T.to_num(count) - Poly.const(its - 1))) if its else FALSE
    eq(R, 'solve', '%s: success' % lab, wh, T.to_num(r.ret), T.to_num(ok), syms=dom, n=24)


def reuse(P, R):
    f = P.fn(NS + 'CGScratchSpace::Resize')
    R.used(f)
    wh = where(f, P)
    C = Chain(P, NS + 'CGScratchSpace', R, fresh(P, NS + 'CGScratchSpace'))
    C.mem[('this', (('f', 'len_'),))] = ZERO
    C.mem.update({('this', (('f', 'M'),) + k[1]): v for k, v in fresh(P, CRS).items()})
    C.mem[('this', (('f', 'M'), ('f', 'num_rows_')))] = ZERO
    for n in (3, 5, 5, 2):
        r = C.call('Resize', [Poly.const(n)])
        got = [r.I.size_of(r.st, ('this', (('f', k),)), '').as_int() for k in 'drsq']
        m = T.to_num(r.fld('this', 'M', 'num_rows_', t='int'))
        R.check(got == [n] * 4 and m == Poly.const(n), 'reuse', 'work arrays for %d unknowns' % n, wh, 'arrays hold %s, preconditioner %s' % (got, T.vstr(m)))
