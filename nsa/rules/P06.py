"""Boundary and initial conditions of a deck act on exactly their nodes and component, with the value and time asked for."""
import os
from .lib import *

UNITS = ['nimble_boundary_condition_manager.cc', 'nimble_boundary_condition.cc', 'nimble_model_data_base.cc']
EXTRA = [os.path.join(facts.NSA, 'witness', 'bc.cc')]
NS = 'nimble::'
BM = NS + 'BoundaryConditionManager'
NN = 5
SETS = {3: ('left', [4, 1]), 7: ('right', [0, 1]), 8: ('none', [])}
SIDES = {2: ('top', [5, 1])}
TC, TP = Poly.sym('tc'), Poly.sym('tp')


def maps(dims):
    m = {}
    for a, d in (('arg0', {k: v[0] for k, v in SETS.items()}), ('arg2', {k: v[0] for k, v in SIDES.items()})):
        m[(a, (('f', '#keys'),))] = Val('keys', *[Poly.const(k) for k in sorted(d)])
        m[(a, (('f', '#size'),))] = Poly.const(len(d))
        for k, s in d.items():
            m[(a, (('i', Poly.const(k)),))] = T.strv(s)
    for a, d in (('arg1', {k: v[1] for k, v in SETS.items()}), ('arg3', {k: v[1] for k, v in SIDES.items()})):
        m[(a, (('f', '#keys'),))] = Val('keys', *[Poly.const(k) for k in sorted(d)])
        m[(a, (('f', '#size'),))] = Poly.const(len(d))
        for k, l in d.items():
            m.update(vecmem(a, [Poly.const(x) for x in l], (('i', Poly.const(k)),)))
    return m


def ev(I, e, st, fr):
    """the value of the expression of this condition at the coordinates and time stored in it (parsing is decided separately)"""
    l = I.lv(e['obj'], st, fr) if e.get('obj') else None
    g = lambda n: T.to_num(I.load(st, (l[0], l[1] + (('f', n),)), 'double'))
    return T.app('expr', g('x'), g('y'), g('z'), g('t'))


def manager(P, R, strings, dim, scheme):
    C = Chain(P, BM, R, intr={'ExpressionParsing::BoundaryConditionFunctor::eval': ev})
    m = maps(dim)
    m.update(vecmem('arg4', [T.strv(s) for s in strings]))
    C.call('Initialize', [None, None, None, None, None, Poly.const(dim), T.strv(scheme)], mem=m)
    return C


def view(name, dim):
    return {(name, (('f', 'data_'),)): T.ptr(('D.' + name, (('i', ZERO),))), (name, (('f', 'len_'), ('i', ZERO))): Poly.const(NN), (name, (('f', 'len_'), ('i', ONE))): Poly.const(dim),
            (name, (('f', 'stride_'), ('i', ZERO))): Poly.const(dim), (name, (('f', 'stride_'), ('i', ONE))): ONE}


VAL = {'expr': '"x + t"', 'num': '-2.5'}


def run(P, R):
    R.rule('init', 'an initial velocity reaches exactly the named component of the nodes of its set, evaluated at their reference position', 40)
    R.rule('vel', 'a prescribed velocity, and in quasistatic runs the displacement it implies, reaches exactly its nodes and component', 60)
    R.rule('disp', 'a prescribed displacement is reached at the end of the step', 60)
    R.rule('other', 'conditions of another kind leave the fields alone', 8)
    R.rule('order', 'of two conditions on one component, the later of the deck wins', 2)
    R.rule('rhs', 'the residual is zeroed at exactly the constrained unknowns', 20)
    R.rule('tangent', 'constrained rows and columns are cleared and keep only the given diagonal entry', 10)
    for dim in (3, 2):
        for scheme in ('explicit', 'quasistatic'):
            for kind in ('initial_velocity', 'prescribed_velocity', 'prescribed_displacement', 'prescribed_traction'):
                for k in range(dim):
                    for how in ('num', 'expr'):
                        R.guard('vel', 'bc', apply, P, R, dim, scheme, kind, k, how)
    R.guard('order', 'two conditions', order, P, R)
    R.rule('model', 'the model applies the conditions to its own fields with the times given', 2)
    R.guard('model', 'conditions of the model', glue, P, R, 'model')
    R.rule('reject', 'a condition of unknown type or coordinate or with unbalanced quotes is rejected, well formed ones are not, and one on an absent set does nothing', 12)
    R.guard('reject', 'malformed conditions', reject, P, R)
    for dim in (3, 2):
        R.guard('rhs', '%dD' % dim, rhs, P, R, dim)
        R.guard('tangent', '%dD' % dim, tangent, P, R, dim)


def pos(n, dim):
    return [cell('D.arg0', n * dim + i) for i in range(dim)] + [ZERO] * (3 - dim)


def fields(dim, names):
    return {n: [cell('D.' + n, i) for i in range(NN * dim)] for n in names}


def compare(R, rule, what, wh, r, dim, want, reach=None):
    """every component of every node"""
    for nm, vals in want.items():
        for n in range(NN):
            for k in range(dim):
                g = T.to_num(r.at('D.' + nm, n * dim + k))
                w = vals[n * dim + k]
                if g != w:
                    eq(R, rule, '%s: %s of node %d, component %d' % (what, 'field ' + nm, n, k), wh, g, w)
                    continue
                R.check(True, rule, '%s: %s of node %d, component %d' % (what, 'field ' + nm, n, k), wh, '')


def apply(P, R, dim, scheme, kind, k, how):
    st = 'left'
    nodes = SETS[3][1]
    s = '%s %s %s %s' % (kind, 'top' if kind.endswith('traction') else st, 'xyz'[k], VAL[how])
    what = '%dD %s: %s' % (dim, scheme, s)
    V2 = lambda f: 'Viewify' in f['key'] and 'vector' not in f['params'][-1]['t']
    C = manager(P, R, [s], dim, scheme)
    fi = P.fn(BM + '::ApplyInitialConditions', 2, V2)
    m = dict(view('arg0', dim))
    m.update(view('arg1', dim))
    r = Chain(P, BM, R, mem=C.mem, **C.kw).call('ApplyInitialConditions', [None, None], mem=m, n=2, pred=V2)
    want = fields(dim, ['arg1'])
    if kind == 'initial_velocity':
        for n in nodes:
            want['arg1'][n * dim + k] = c(-2.5) if how == 'num' else T.app('expr', *pos(n, dim), ZERO)
    compare(R, 'init' if kind == 'initial_velocity' else 'other', what, where(fi, P), r, dim, want)
    fk = P.fn(BM + '::ApplyKinematicBC', 5, V2)
    m = dict(view('arg2', dim))
    m.update(view('arg3', dim))
    m.update(view('arg4', dim))
    want = fields(dim, ['arg3', 'arg4'])
    rule = {'prescribed_velocity': 'vel', 'prescribed_displacement': 'disp'}.get(kind, 'other')
    dt = TC - TP
    for n in nodes:
        i = n * dim + k
        x = [cell('D.arg2', n * dim + j) for j in range(dim)] + [ZERO] * (3 - dim)
        v = c(-2.5) if how == 'num' else T.app('expr', *x, TC)
        d = want['arg3'][i]
        if rule == 'vel':
            want['arg4'][i] = v
            if scheme == 'quasistatic':
                want['arg3'][i] = d + v * dt
        elif rule == 'disp':
            pv = T.b_gt0(dt)
            want['arg4'][i] = T.ite(pv, (v - d).div(dt), want['arg4'][i])
            if scheme == 'quasistatic':
                want['arg3'][i] = T.ite(pv, v, d)
    r = Chain(P, BM, R, mem=C.mem, **C.kw).call('ApplyKinematicBC', [TC, TP, None, None, None], mem=m, n=5, pred=V2)
    compare(R, rule, what, where(fk, P), r, dim, want)


def order(P, R):
    V2 = lambda f: 'Viewify' in f['key'] and 'vector' not in f['params'][-1]['t']
    C = manager(P, R, ['prescribed_velocity left x 1.0', 'prescribed_velocity right x 2.0', 'prescribed_velocity right y 3.0'], 3, 'explicit')
    m = dict(view('arg2', 3))
    m.update(view('arg3', 3))
    m.update(view('arg4', 3))
    fk = P.fn(BM + '::ApplyKinematicBC', 5, V2)
    want = fields(3, ['arg3', 'arg4'])
    for n, k, v in ((4, 0, 1), (1, 0, 2), (0, 0, 2), (0, 1, 3), (1, 1, 3)):
        want['arg4'][n * 3 + k] = c(v)
    r = C.call('ApplyKinematicBC', [TC, TP, None, None, None], mem=m, n=5, pred=V2)
    compare(R, 'order', 'three conditions', where(fk, P), r, 3, want)


def thrown(r):
    """the condition under which the call throws"""
    th = [e for e in r.trace if e.kind == 'throw' or e.kind == 'call' and ('abort' in str(e.q) or str(e.q).endswith('exit'))]
    return T.b_or(*[T.b_and(*e.guards) if e.guards else TRUE for e in th]) if th else FALSE


def reject(P, R):
    f = P.fn(BM + '::Initialize')
    for s, bad in (('prescribed_speed left x 1.0', True), ('prescribed_velocity left w 1.0', True), ('prescribed_velocity left x "1.0', True), ('prescribed_velocity left', True), ('', True),
                   ('prescribed_velocity left x 1.0', False), ('prescribed_velocity left Z 1.0', False), ('initial_velocity right y "t"', False), ('prescribed_traction top x 1.0', False),
                   ('prescribed_velocity elsewhere x 1.0', False), ('prescribed_traction elsewhere x 1.0', False), ('prescribed_velocity top x 1.0', False)):
        C = Chain(P, BM, R)
        m = maps(3)
        m.update(vecmem('arg4', [T.strv('prescribed_velocity right y 3.0'), T.strv(s)]))
        r = C.call('Initialize', [None] * 5 + [Poly.const(3), T.strv('explicit')], mem=m)
        g = thrown(r)
        if g not in (TRUE, FALSE):
            R.und('reject', '"%s"' % s, where(f, P), 'rejection is %s' % T.vstr(g)[:200])
            continue
        R.check((g == TRUE) == bad, 'reject', '"%s"' % s, where(f, P), 'is %s' % ('rejected' if g == TRUE else 'accepted'))
        if bad or 'elsewhere' not in s and 'velocity top' not in s:
            continue
        V2 = lambda f: 'Viewify' in f['key'] and 'vector' not in f['params'][-1]['t']
        m = dict(view('arg2', 3))
        m.update(view('arg3', 3))
        m.update(view('arg4', 3))
        want = fields(3, ['arg3', 'arg4'])
        for n in (0, 1):
            want['arg4'][n * 3 + 1] = c(3)
        r = C.call('ApplyKinematicBC', [TC, TP, None, None, None], mem=m, n=5, pred=V2)
        compare(R, 'reject', 'with "%s" added' % s, where(f, P), r, 3, want)


DECK = ['initial_velocity right z 4.0', 'prescribed_velocity left x 1.0', 'prescribed_traction top y 2.0', 'prescribed_displacement right y 3.0', 'prescribed_displacement none x 3.0']


def fixed(dim, gid):
    out = set()
    for s, k in ((3, 0), (7, 1)):
        for n in SETS[s][1]:
            out.add(gid[n] * dim + k)
    return sorted(out)


GID = [2, 0, 4, 1, 3]


def gids(m, name):
    for i, g in enumerate(GID):
        m[(name, (('i', Poly.const(i)),))] = Poly.const(g)
    return m


def rhs(P, R, dim):
    C = manager(P, R, DECK, dim, 'quasistatic')
    f = P.fn(BM + '::ModifyRHSForKinematicBC')
    r = C.call('ModifyRHSForKinematicBC', [None, None], mem=gids({}, 'arg0'))
    fx = fixed(dim, GID)
    for i in range(NN * dim):
        eq(R, 'rhs', '%dD unknown %d' % (dim, i), where(f, P), T.to_num(r.at('arg1', i)), ZERO if i in fx else cell('arg1', i))
    R.check(not [e for e in r.trace if e.kind in ('throw',) or e.kind == 'call' and 'abort' in str(e.q)], 'rhs', '%dD: no rejection of other kinds' % dim, where(f, P), 'rejects a deck with traction or initial conditions')


def tangent(P, R, dim):
    """a matrix that records the row, column and entry operations made on it"""
    for cls in ('MatrixContainer', 'CRSMatrixContainer'):
        fs = [f for f in P.fns(BM + '::ModifyTangentStiffnessMatrixForKinematicBC') if NS + cls in f['key'].split('(')[-1] and ('CRS' in cls) == ('CRS' in f['key'].split('(')[-1])]
        if not fs:
            R.und('tangent', cls, '', 'instantiation not found')
            continue
        f = fs[0]
        n = NN * dim
        M = [[cell('K', i, j) for j in range(n)] for i in range(n)]

        def setrow(I, e, st, fr):
            i, v = (T.to_num(I.rv(a, st, fr)) for a in e['args'])
            for j in range(n):
                I.store(st, ('K', (('i', i), ('i', Poly.const(j)))), v)
            return T.VOID

        def setcol(I, e, st, fr):
            i, v = (T.to_num(I.rv(a, st, fr)) for a in e['args'])
            for j in range(n):
                I.store(st, ('K', (('i', Poly.const(j)), ('i', i))), v)
            return T.VOID
        q = NS + cls + '::'

        def at(I, e, st, fr):
            i, j = (T.to_num(I.rv(a, st, fr)) for a in e['args'][-2:])
            return Val('lref', ('K', (('i', i), ('i', j))))
        C = manager(P, R, DECK, dim, 'quasistatic')
        kw = dict(C.kw)
        kw['intr'] = dict(kw['intr'], **{q + 'SetRowValues': setrow, q + 'SetColumnValues': setcol, q + 'operator()': at})
        r = Chain(P, BM, R, mem=C.mem, **kw).call('ModifyTangentStiffnessMatrixForKinematicBC', [Poly.const(n), None, Poly.sym('diag'), None], mem=gids({}, 'arg1'), pred=lambda g: g is f)
        fx = fixed(dim, GID)
        for i in range(n):
            for j in range(n):
                w = M[i][j]
                if i in fx or j in fx:
                    w = Poly.sym('diag') if i == j else ZERO
                eq(R, 'tangent', '%s %dD entry (%d,%d)' % (cls, dim, i, j), where(f, P), T.to_num(r.at('K', i, j)), w)
