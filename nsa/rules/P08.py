"""Quasistatic load stepping: each load step solves for equilibrium by Newton iterations with a secant line search, or reports failure."""
from .lib import *

UNITS = ['quasistatic_time_integrator.cc', 'nimble_linear_solver.cc']
NS = 'nimble::'
MDB = NS + 'ModelDataBase::'
BM = NS + 'BoundaryConditionManager::'
DIM = 2
VECS = ['reference_coordinate', 'displacement', 'displacement_fluctuation', 'trial_displacement', 'velocity', 'internal_force', 'trial_internal_force']


class Case:
    def __init__(self, steps, freq, its, gid, fixed):
        self.steps, self.freq, self.its, self.gid, self.fixed = steps, freq, its, gid, fixed
        self.nn = len(gid)
        self.n = DIM * self.nn

    def unknown(self, node, d):
        return DIM * self.gid[node] + d


def terms_bc(t, tp, D):
    return [T.app('bc', Poly.const(i), t, tp, x) for i, x in enumerate(D)]


def terms_f(tp, t, o, D):
    d = T.app('state', tp, t, o, *D)
    return [T.app('fint', Poly.const(i), d) for i in range(len(D))]


def terms_k(n, D):
    d = T.app('tangent', *D)
    return {(i, j): T.app('K', Poly.const(i), Poly.const(j), d) for i in range(n) for j in range(n)}


def terms_x(n, K, b):
    m = T.app('system', *[K[i, j] for i in range(n) for j in range(n)], *b)
    return [T.app('sol', Poly.const(i), m) for i in range(n)], T.b_gt0(T.app('ok', m) - c('1/4'))


def kbc(i, j, diag, k):
    return T.app('Kbc', Poly.const(i), Poly.const(j), diag, k)


def absv(x):
    return T.app('abs', x)


def reference(cs):
    n = cs.n
    t0, t1, rel = Poly.sym('t0'), Poly.sym('t1'), Poly.sym('rel')
    D = [cell('F.displacement', i) for i in range(n)]
    out = []
    status = ZERO
    alive = TRUE

    def residual(tp, t, o, D):
        F = terms_f(tp, t, o, D)
        r = [ZERO] * n
        for a in range(cs.nn):
            for d in range(DIM):
                u = cs.unknown(a, d)
                if u not in cs.fixed:
                    r[u] = r[u] - F[DIM * a + d]
        l2 = T.app('sqrt', sum_([x * x for x in r]))
        mx = ZERO
        for x in r:
            mx = T.ite(T.b_gt0(absv(x) - mx), absv(x), mx)
        return F, r, l2 + mx.scale(20)
    D = terms_bc(t0, t0, D)
    out.append((alive, t0, D))
    dt = (t1 - t0).div(Poly.const(cs.steps))
    t = t0
    for s in range(cs.steps):
        o = cs.freq != 0 and (s % cs.freq == 0 or s == cs.steps - 1)
        tp, t = t, t + dt
        D = [T.ite(alive, x, y) for x, y in zip(terms_bc(t, tp, D), D)]
        F, r, res = residual(tp, t, ONE if o else ZERO, D)
        tol = rel * res
        on = alive
        for k in range(cs.its):
            on = T.b_and(on, T.b_gt0(res - tol))
            K = terms_k(n, D)
            diag = sum_([absv(K[i, i]) for i in range(n)]).div(Poly.const(n))
            K = {(i, j): kbc(i, j, diag, v) for (i, j), v in K.items()}
            x, ok = terms_x(n, K, r)
            bad = T.b_and(on, T.b_not(ok))
            status = T.ite(bad, ONE, status)
            alive = T.b_and(alive, T.b_not(bad))
            on = T.b_and(on, ok)
            Dt = [None] * n
            for a in range(cs.nn):
                for d in range(DIM):
                    Dt[DIM * a + d] = D[DIM * a + d] - x[cs.unknown(a, d)]
            Ft, rt, rest = residual(tp, t, ONE if o else ZERO, Dt)
            sr = sum_([p * q for p, q in zip(x, r)])
            st = sum_([p * q for p, q in zip(x, rt)])
            al = (-sr).div(st - sr)
            Da = [None] * n
            for a in range(cs.nn):
                for d in range(DIM):
                    Da[DIM * a + d] = D[DIM * a + d] - al * x[cs.unknown(a, d)]
            Fa, ra, resa = residual(tp, t, ONE if o else ZERO, Da)
            full = T.b_gt0(resa - rest)
            pick = lambda p, q, z: T.ite(on, T.ite(full, p, q), z)
            D = [pick(p, q, z) for p, q, z in zip(Dt, Da, D)]
            F = [pick(p, q, z) for p, q, z in zip(Ft, Fa, F)]
            r = [pick(p, q, z) for p, q, z in zip(rt, ra, r)]
            res = pick(rest, resa, res)
        fail = T.b_and(alive, T.b_gt0(res - tol))
        status = T.ite(fail, ONE, status)
        alive = T.b_and(alive, T.b_not(fail))
        if o:
            out.append((alive, t, D))
    return out, status, D, F, alive


def hooks(cs, out, log, ranks=1):
    n = cs.n
    k = lambda v: (lambda I, e, st, fr: v)

    def get(I, st, v):
        return [T.to_num(I.load(st, ('F.' + v, (('i', Poly.const(i)),)), 'double')) for i in range(n)]

    def put(I, st, v, xs):
        for i, x in enumerate(xs):
            I.store(st, ('F.' + v, (('i', Poly.const(i)),)), x)

    def view(I, e, st, fr):
        a = I.rv(e['args'][0], st, fr)
        lab = a.a[0] if isinstance(a, Val) and a.tag == 'str' else None
        if lab is None:
            return NotImplemented
        loc = I.tmp('view')
        I.put(st, (loc[0], (('f', 'data_'),)), T.ptr(('F.' + lab, (('i', ZERO),))))
        for i, (ln, s) in enumerate([(cs.nn, DIM), (DIM, 1)]):
            I.put(st, (loc[0], (('f', 'len_'), ('i', Poly.const(i)))), Poly.const(ln))
            I.put(st, (loc[0], (('f', 'stride_'), ('i', Poly.const(i)))), Poly.const(s))
        return Val('obj', loc)

    def of(I, e, st, fr):
        """the field a view argument refers to"""
        l = I.lv(e, st, fr)
        p = I.load(st, (l[0], l[1] + (('f', 'data_'),)), 'double *')
        if isinstance(p, Val) and p.tag == 'ptr' and isinstance(p.a[0][0], str) and p.a[0][0].startswith('F.'):
            return p.a[0][0][2:]
        raise AnalysisError('argument is a view of %s' % T.vstr(p))

    def bc(I, e, st, fr):
        t, tp = [T.to_num(I.rv(e['args'][i], st, fr)) for i in (1, 2)]
        put(I, st, 'displacement', terms_bc(t, tp, get(I, st, 'displacement')))
        return T.VOID

    def fint(I, e, st, fr):
        vs = [T.to_num(I.rv(e['args'][i], st, fr)) for i in (1, 2, 3)]
        d, f = of(I, e['args'][4], st, fr), of(I, e['args'][5], st, fr)
        put(I, st, f, terms_f(*vs, get(I, st, d)))
        return T.VOID

    def array(I, e, st, fr, m=n):
        p = I.rv(e, st, fr)
        return [I.index(p, Poly.const(i), None) for i in range(m)]

    def rhs(I, e, st, fr):
        gids = [T.to_num(I.load(st, l, 'int')) for l in array(I, e['args'][0], st, fr, cs.nn)]
        if gids != [Poly.const(g) for g in cs.gid]:
            log.append('node numbers %s passed with the right-hand side' % gids)
        b = array(I, e['args'][1], st, fr)
        for i in cs.fixed:
            I.store(st, b[i], ZERO)
        return T.VOID

    def entry(I, e, st, fr):
        l = I.lv(e, st, fr)
        return {(i, j): (l[0], l[1] + (('f', 'data_'), ('i', Poly.const(i * n + j)))) for i in range(n) for j in range(n)}

    def tangent(I, e, st, fr):
        u = T.to_num(I.rv(e['args'][0], st, fr))
        if u != Poly.const(n):
            log.append('%s unknowns passed to the tangent assembly' % T.vstr(u))
        x = I.rv(e['args'][1], st, fr)
        d = I.rv(e['args'][2], st, fr)
        dl = I.index(d, ZERO, None)
        if I.index(x, ZERO, None)[0] != 'F.reference_coordinate' or dl[0] != 'F.displacement':
            log.append('tangent evaluated for %s' % (dl[0],))
        gids = [T.to_num(I.load(st, l, 'int')) for l in array(I, e['args'][5], st, fr, cs.nn)]
        if gids != [Poly.const(g) for g in cs.gid]:
            log.append('node numbers %s passed to the tangent assembly' % gids)
        K = terms_k(n, get(I, st, 'displacement'))
        for ij, l in entry(I, e['args'][6], st, fr).items():
            I.store(st, l, T.to_num(I.load(st, l, 'double')) + K[ij])
        return T.VOID

    def ktan(I, e, st, fr):
        u = T.to_num(I.rv(e['args'][0], st, fr))
        diag = T.to_num(I.rv(e['args'][2], st, fr))
        if u != Poly.const(n):
            log.append('%s unknowns passed to the boundary conditions' % T.vstr(u))
        for (i, j), l in entry(I, e['args'][3], st, fr).items():
            I.store(st, l, kbc(i, j, diag, T.to_num(I.load(st, l, 'double'))))
        return T.VOID

    def cg(I, e, st, fr):
        K = {ij: T.to_num(I.load(st, l, 'double')) for ij, l in entry(I, e['args'][0], st, fr).items()}
        b = [T.to_num(I.load(st, l, 'double')) for l in array(I, e['args'][1], st, fr)]
        x, ok = terms_x(n, K, b)
        for l, v in zip(array(I, e['args'][3], st, fr), x):
            I.store(st, l, v)
        return ok

    def structure(I, e, st, fr):
        for m, f in ((2, lambda a: a // n), (3, lambda a: a % n)):
            l = I.lv(e['args'][m], st, fr)
            for key, v in vecmem(l[0], [Poly.const(f(a)) for a in range(n * n)], l[1]).items():
                I.put(st, key, v)
        return T.VOID

    def write(I, e, st, fr):
        out.append((T.b_and(*st.guards) if st.guards else TRUE, T.to_num(I.rv(e['args'][0], st, fr)), get(I, st, 'displacement')))
        return T.VOID

    def ident(I, e, st, fr):
        src, dst = I.rv(e['args'][0], st, fr), I.rv(e['args'][1], st, fr)
        I.store(st, I.index(dst, ZERO, None), I.load(st, I.index(src, ZERO, None), 'double'))
        return ZERO

    def gids(I, e, st, fr):
        for i, g in enumerate(cs.gid):
            I.put(st, ('gids', (('i', Poly.const(i)),)), Poly.const(g))
        return T.ptr(('gids', (('i', ZERO),)))

    def blocks(I, e, st, fr):
        return Val('lref', ('blocks', ()))
    Pq = NS + 'Parser::'
    h = {MDB + 'GetVectorNodeData': view, NS + 'ModelData::GetVectorNodeData': view, MDB + 'ApplyKinematicConditions': bc, NS + 'ModelData::ApplyKinematicConditions': bc,
         MDB + 'ComputeInternalForce': fint, BM + 'ModifyRHSForKinematicBC': rhs, BM + 'ModifyTangentStiffnessMatrixForKinematicBC': ktan,
         NS + 'Block::ComputeTangentStiffnessMatrix': tangent, NS + 'BlockBase::ComputeTangentStiffnessMatrix': tangent, NS + 'DataManager::GetModelData': k(Val('lref', ('modelp', ()))), NS + 'CG_SolveSystem': cg, NS + 'DetermineTangentMatrixNonzeroStructure': structure,
         NS + 'DataManager::WriteOutput': write, MDB + 'UpdateStates': k(T.VOID), NS + 'ModelData::UpdateStates': k(T.VOID), 'MPI_Allreduce': ident,
         NS + 'GenesisMesh::GetDim': k(Poly.const(DIM)), NS + 'GenesisMesh::GetNumNodes': k(Poly.const(cs.nn)), NS + 'GenesisMesh::GetNumBlocks': k(ONE),
         NS + 'GenesisMesh::GetNumElementsInBlock': k(ONE), NS + 'GenesisMesh::GetConnectivity': k(Val('null')), NS + 'GenesisMesh::GetNodeGlobalIds': gids,
         Pq + 'GetRankID': k(ZERO), Pq + 'GetNumRanks': k(Poly.const(ranks)), Pq + 'InitialTime': k(Poly.sym('t0')), Pq + 'FinalTime': k(Poly.sym('t1')),
         Pq + 'NumLoadSteps': k(Poly.const(cs.steps)), Pq + 'OutputFrequency': k(Poly.const(cs.freq)), Pq + 'NonlinearSolverMaxIterations': k(Poly.const(cs.its)),
         Pq + 'NonlinearSolverRelativeTolerance': k(Poly.sym('rel')), Pq + 'UseUQ': k(FALSE),
         NS + 'ModelData::GetBlocks': blocks}
    return h


CASES = {
    'one step, no iteration allowed': (1, 1, 0, [0, 1], []),
    'one step, one iteration': (1, 1, 1, [0, 1], [0]),
    'one step, two iterations, permuted nodes': (1, 1, 2, [1, 2, 0], [1, 4]),
    'two steps, one iteration': (2, 1, 1, [1, 0], [3]),
    'two steps, output every 2': (2, 2, 1, [1, 0], [0]),
    'three steps, output every 2': (3, 2, 1, [0, 1], [0, 2]),
    'four steps, output every 3': (4, 3, 1, [1, 0], [2]),
    'two steps, no output': (2, 0, 1, [0, 1], [1]),
}


def run(P, R):
    R.rule('solve', 'displacement and internal force after the last load step are those of the Newton iteration with secant line search', 20)
    R.rule('status', 'the integrator reports failure exactly when the linear solver fails or the residual norm over all unknowns stays above the tolerance', 5)
    R.rule('output', 'output is written at the initial time and for the converged output steps only', 8)
    R.rule('arguments', 'the assembly and boundary conditions receive the current displacement and the node numbering of the linear system', 5)
    R.rule('reject', 'parallel runs and reversed times are rejected', 2)
    T.Poly.BIG = 20
    f = P.fn(NS + 'QuasistaticTimeIntegrator::Integrate')
    R.used(f)
    for nm, a in CASES.items():
        R.guard('solve', nm, case, P, R, f, nm, Case(*a))
    R.guard('reject', '', reject, P, R, f)


def evaluate(P, f, cs, ranks=1):
    out, log = [], []
    mem = {('modelp', ()): T.ptr(('new~model', ())), ('blocks', (('f', '#keys'),)): Val('keys', ONE), ('blocks', (('f', '#size'),)): ONE}
    r = Run(P, f, intr=hooks(cs, out, log, ranks), mem=mem, peel=True, maxsteps=3000000)
    return r, out, log


def case(P, R, f, nm, cs):
    wh = where(f, P)
    r, out, log = evaluate(P, f, cs)
    R.check(not log, 'arguments', nm, wh, '; '.join(log)[:200])
    wout, status, D, F, alive = reference(cs)
    import random

    def syms(seed):
        g = random.Random(seed)
        t0 = g.uniform(-1, 1)
        return {'t0': t0, 't1': t0 + g.uniform(0.1, 2), 'rel': g.choice([0.5, 0.9, 1.5, 0.99])}
    kw = dict(syms=syms, n=16)
    eq(R, 'status', nm, wh, T.to_num(r.ret), status, **kw)
    R.check(len(out) == len(wout), 'output', nm + ': number of outputs', wh, '%d outputs, required %d' % (len(out), len(wout)))
    for g, txt, w in r.I.maybe[:20]:
        eq(R, 'solve', '%s: %s' % (nm, txt), w, T.to_num(T.b_and(*g)), ZERO, **kw)
    for i, ((g, t, d), (wg, wt, wd)) in enumerate(zip(out, wout)):
        eq(R, 'output', '%s: output %d is written' % (nm, i), wh, T.to_num(g), T.to_num(wg), **kw)
        eq(R, 'output', '%s: time of output %d' % (nm, i), wh, t, wt, **kw)
        for j in range(cs.n):
            eq(R, 'output', '%s: displacement %d of output %d' % (nm, j, i), wh, T.ite(wg, d[j], ZERO), T.ite(wg, wd[j], ZERO), **kw)
    for j in range(cs.n):
        eq(R, 'solve', '%s: displacement %d' % (nm, j), wh, T.ite(alive, T.to_num(r.at('F.displacement', j)), ZERO), T.ite(alive, D[j], ZERO), **kw)
        eq(R, 'solve', '%s: internal force %d' % (nm, j), wh, T.ite(alive, T.to_num(r.at('F.internal_force', j)), ZERO), T.ite(alive, F[j], ZERO), **kw)


def reject(P, R, f):
    cs = Case(1, 1, 0, [0, 1], [])
    for ranks in (1, 2):
        r, out, log = evaluate(P, f, cs, ranks)
        th = [e for e in r.trace if e.kind == 'throw']
        g = T.b_or(*[T.b_and(*e.guards) if e.guards else TRUE for e in th]) if th else FALSE
        want = TRUE if ranks > 1 else T.b_gt0(Poly.sym('t0') - Poly.sym('t1'))
        eq(R, 'reject', 'several ranks' if ranks > 1 else 'final time before initial time', where(f, P), T.to_num(g), T.to_num(want))
