"""3x3 tensor algebra: every routine of nimble_utils.h equals its definition, for all inputs."""
import os
from .lib import *

UNITS = []
EXTRA = [os.path.join(facts.NSA, 'witness', 'tensor.cc')]
FILES = ['src/nimble_utils.h']


def run(P, R):
    R.rule('kernel', 'value graph of the routine equals the definition, component by component', 90)
    R.rule('frame', 'the routine writes only its result argument', 10)
    A, B, S = full('arg0'), full('arg1'), sym('arg0')

    def mat(name, spec, out, store, nout, n=None, intr=None, domain=None, ret=None, frame=True, args=None):
        def go():
            f = P.fn(name, n)
            R.used(f)
            kw = {'intr': intr} if intr else {}
            r = Run(P, f, args=args, **kw)
            wh = where(f, P)
            seen = set()
            for i in range(3):
                for j in range(3):
                    k = store[i, j]
                    if k in seen:
                        continue
                    seen.add(k)
                    got = T.to_num(r.at(out, k))
                    eq(R, 'kernel', '%s[%s%s]' % (name, XYZ[i], XYZ[j]), wh, got, spec[i][j], domain)
            if ret is not None:
                eq(R, 'kernel', '%s return' % name, wh, T.to_num(r.ret), ret, domain)
            if frame:
                nowrites_outside(R, 'frame', name, r, [out], wh)
        R.guard('kernel', name, go)

    a0 = Poly.sym('arg0')
    mat('Square_Full33T_Full33', mm(tr(A), A), 'arg1', S6, 6)
    mat('Square_Full33_Full33T', mm(A, tr(A)), 'arg1', S6, 6)
    mat('Mult_Scalar_Full33', mscale(a0, full('arg1')), 'arg2', F9, 9)
    mat('Sum_Full33_Full33', madd(A, B), 'arg2', F9, 9)
    mat('Sum_Sym33_Full33', madd(S, B), 'arg2', F9, 9)
    mat('Mult_Full33_Full33', mm(A, B), 'arg2', F9, 9)
    mat('Mult_Sym33_Full33', mm(S, B), 'arg2', F9, 9)
    mat('Mult_Scalar_Full33_Full33', mscale(a0, mm(full('arg1'), full('arg2'))), 'arg3', F9, 9)
    mat('Mult_Full33_Sym33_ReturnT', tr(mm(A, sym('arg1'))), 'arg2', F9, 9)
    mat('Rotate_Sym33_Using_Rtranspose_S_R', mm(tr(B), mm(S, B)), 'arg2', S6, 6)
    mat('Unrotate_Sym33_Using_R_S_Rtranspose', mm(B, mm(S, tr(B))), 'arg2', S6, 6)
    Z = [[ZERO] * 3 for _ in range(3)]
    mat('Zero_Full33', Z, 'arg0', F9, 9)
    mat('SetEqual_Full33', A, 'arg1', F9, 9)
    mat('SetEqual_Sym33', S, 'arg1', S6, 6)
    mat('SymPart_Full33', mscale('1/2', madd(A, tr(A))), 'arg1', S6, 6)
    mat('SkewPart_Full33', mscale('1/2', madd(A, mscale(-1, tr(A)))), 'arg1', F9, 9)

    def nonsing(root):
        def d(env):
            return evalt.ev(det(full(root)), env) > 1e-3
        return d
    inv = [[x.div(det(A)) for x in row] for row in adj(A)]
    mat('Invert_Full33', inv, 'arg1', F9, 9, domain=nonsing('arg0'), ret=det(A), frame=False)

    # commutator series, degree 4
    comm = lambda X, Y: madd(mm(X, Y), mscale(-1, mm(Y, X)))

    def bch(X, Y):
        xy = comm(X, Y)
        s = madd(X, Y)
        s = madd(s, mscale('1/2', xy))
        s = madd(s, mscale('1/12', madd(comm(X, xy), mscale(-1, comm(Y, xy)))))
        return madd(s, mscale('-1/24', comm(Y, comm(X, xy))))
    mat('BCH', bch(A, B), 'arg2', F9, 9)
    mat('BCH_Sym33_Full33', bch(S, B), 'arg2', F9, 9)

    def scal(name, spec, domain=None):
        def go():
            f = P.fn(name)
            R.used(f)
            r = Run(P, f)
            eq(R, 'kernel', name, where(f, P), T.to_num(r.ret), spec, domain)
        R.guard('kernel', name, go)
    scal('Determinant_Full33', det(A))
    scal('Norm_Full33', T.app('sqrt', sum_([x * x for row in A for x in row])))
    scal('Norm_Sym33', T.app('sqrt', sum_([x * x for row in S for x in row])))
    x, y = Poly.sym('arg0'), Poly.sym('arg1')
    scal('MultiplySign', T.ite(T.b_gt0(-y), -x, x))
    scal('Minimum', T.minmax('min', x, y))
    b = Val('bool', T.op('sym', 'arg0'))
    scal('if_then', T.ite(b, Poly.sym('arg1'), Poly.sym('arg2')))
    scal('if_then_else', T.ite(b, Poly.sym('arg1'), Poly.sym('arg2')))
    scal('if_then_else_zero', T.ite(b, Poly.sym('arg1'), ZERO))

    def cross():
        f = P.fn('CrossProduct')
        R.used(f)
        r = Run(P, f)
        u = [cell('arg0', i) for i in range(3)]
        v = [cell('arg1', i) for i in range(3)]
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            eq(R, 'kernel', 'CrossProduct[%s]' % XYZ[i], where(f, P), r.at('arg2', i), u[j] * v[k] - u[k] * v[j])
    R.guard('kernel', 'CrossProduct', cross)

    def inv33():
        f = P.fn('Invert3x3')
        R.used(f)
        M = [[cell('arg0', i, j) for j in range(3)] for i in range(3)]
        r = Run(P, f)
        D = det(M)
        dom = lambda env: evalt.ev(D, env) > 1e-3
        a = adj(M)
        for i in range(3):
            for j in range(3):
                eq(R, 'kernel', 'Invert3x3[%d][%d]' % (i, j), where(f, P), r.at('arg1', i, j), a[i][j].div(D), dom)
        eq(R, 'kernel', 'Invert3x3 return', where(f, P), T.to_num(r.ret), D, dom)
    R.guard('kernel', 'Invert3x3', inv33)

    # polar decompositions, relative to the eigen decomposition they call
    ev = [Poly.sym('eval%d' % i) for i in range(3)]
    vec = [[Poly.sym('v%d%s' % (k, XYZ[i])) for i in range(3)] for k in range(3)]

    def polar(name, order):
        seen = {}

        def eig(I, e, st, fr):
            t = I.rv(e['args'][0], st, fr)
            seen['tensor'] = [I.load(st, I.index(t, Poly.const(k), None), 'double') for k in range(6)]
            for k in range(3):
                I.store(st, I.lv(e['args'][1 + k], st, fr), ev[k])
            for k in range(3):
                p = I.rv(e['args'][4 + k], st, fr)
                for i in range(3):
                    I.store(st, I.index(p, Poly.const(i), None), vec[k][i])
            return T.VOID

        def pos(env):
            return all(evalt.ev(x, env) > 1e-2 for x in ev) and evalt.ev(det(A), env) > 1e-2
        f = P.fn(name)
        R.used(f)
        r = Run(P, f, intr={'Eigen_Sym33_NonUnit': eig})
        wh = where(f, P)
        if 'tensor' not in seen:
            raise AnalysisError('%s no longer calls the eigen decomposition' % name)
        n2 = [sum_([q * q for q in v]) for v in vec]

        def spectral(g):
            return [[sum_([g(ev[k]) * vec[k][i] * vec[k][j] * n2[k].recip() for k in range(3)]) for j in range(3)] for i in range(3)]
        isq = lambda e: T.app('sqrt', e).recip()
        sq = lambda e: T.app('sqrt', e)
        if name == 'Polar_Decomp':
            M = mm(tr(inv), inv)
            V = spectral(isq)
            Rot = tr(mm(inv, V))
        else:
            M = mm(A, tr(A))
            V = spectral(sq)
            Rot = mm(spectral(isq), A)
            L = spectral(lambda e: T.app('log', T.app('sqrt', e)))
        for (i, j) in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)):
            eq(R, 'kernel', '%s tensor[%s%s]' % (name, XYZ[i], XYZ[j]), wh, seen['tensor'][S6[i, j]], M[i][j], pos)
            eq(R, 'kernel', '%s V[%s%s]' % (name, XYZ[i], XYZ[j]), wh, r.at('arg1', S6[i, j]), V[i][j], pos)
            if name != 'Polar_Decomp':
                eq(R, 'kernel', '%s logV[%s%s]' % (name, XYZ[i], XYZ[j]), wh, r.at('arg3', S6[i, j]), L[i][j], pos)
        for i in range(3):
            for j in range(3):
                eq(R, 'kernel', '%s R[%s%s]' % (name, XYZ[i], XYZ[j]), wh, r.at('arg2', F9[i, j]), Rot[i][j], pos)
    R.guard('kernel', 'Polar_Decomp', polar, 'Polar_Decomp', None)
    R.guard('kernel', 'Polar_Left_LogV_Lame', polar, 'Polar_Left_LogV_Lame', None)

    # logarithm of a rotation: theta/sin(theta) skew(R) in the generic branch; the result is set on every branch
    def logrot():
        f = P.fn('Log_Rotation')
        R.used(f)
        r = Run(P, f, opaque={'Log_Rotation_Pi'})
        wh = where(f, P)
        cosine = (A[0][0] + A[1][1] + A[2][2] - ONE).scale('1/2')
        th = T.app('acos', cosine)
        fac = th.div(T.app('sin', th))

        def dom(env):
            x = evalt.ev(cosine, env)
            return -0.9 < x < 0.9
        for i in range(3):
            for j in range(3):
                want = fac * (A[i][j] - A[j][i]).scale('1/2')
                eq(R, 'kernel', 'Log_Rotation[%s%s]' % (XYZ[i], XYZ[j]), wh, T.to_num(r.at('arg1', F9[i, j])), want, dom)
        # definite assignment
        for k in range(9):
            v = r.at('arg1', k)
            init = cell('arg1', k)
            hit = T.mentions(v, lambda kd, o: kd == 'atom' and Poly.atom(o) == init)
            calls = [e for e in r.trace if e.kind == 'call' and e.q == 'Log_Rotation_Pi']
            R.check(not hit or bool(calls), 'kernel', 'Log_Rotation sets component %d on every branch' % k, wh,
                    'component %d keeps its previous content on some branch (rotation by pi)' % k)
    R.guard('kernel', 'Log_Rotation', logrot)

    def logpi():
        f = P.fn('Log_Rotation_Pi')
        R.used(f)
        r = Run(P, f)
        wh = where(f, P)
        Bm = [[A[i][j] - (ONE if i == j else ZERO) for j in range(3)] for i in range(3)]
        u, v = Bm[0], Bm[1]
        n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        nn = T.app('sqrt', sum_([q * q for q in n]))
        pi = T.app('acos', c(-1))
        n = [q.div(nn) * pi for q in n]
        sk = [[ZERO, -n[2], n[1]], [n[2], ZERO, -n[0]], [-n[1], n[0], ZERO]]

        def dom(env):
            return evalt.ev(nn, env) > 1e-2
        for i in range(3):
            for j in range(3):
                eq(R, 'kernel', 'Log_Rotation_Pi[%s%s]' % (XYZ[i], XYZ[j]), wh, T.to_num(r.at('arg1', F9[i, j])), sk[i][j], dom,
                   syms=None)
    R.guard('kernel', 'Log_Rotation_Pi', logpi)

    def eigen():
        old = T.Poly.BIG
        T.Poly.BIG = 40
        try:
            f = P.fn('Eigen_Sym33_NonUnit')
            R.used(f)
            r = Run(P, f)
            wh = where(f, P)
            lam = [T.to_num(r.at(('arg%d' % (1 + k), ()))) for k in range(3)]
            vec_ = [[T.to_num(r.at('arg%d' % (4 + k), i)) for i in range(3)] for k in range(3)]
            for k in range(3):
                for i in range(3):
                    eq(R, 'kernel', 'Eigen_Sym33_NonUnit A v%d [%s]' % (k, XYZ[i]), wh,
                       sum_([S[i][j] * vec_[k][j] for j in range(3)]), lam[k] * vec_[k][i], n=12, tol=1e-5)
                for l in range(k):
                    eq(R, 'kernel', 'Eigen_Sym33_NonUnit v%d.v%d' % (k, l), wh, sum_([vec_[k][j] * vec_[l][j] for j in range(3)]), ZERO, n=12, tol=1e-5)
            eq(R, 'kernel', 'Eigen_Sym33_NonUnit trace', wh, sum_(lam), S[0][0] + S[1][1] + S[2][2], n=12, tol=1e-5)
            eq(R, 'kernel', 'Eigen_Sym33_NonUnit determinant', wh, lam[0] * lam[1] * lam[2], det(S), n=12, tol=1e-5)
        finally:
            T.Poly.BIG = old
    R.guard('kernel', 'Eigen_Sym33_NonUnit', eigen)

    def cosd3():
        f = P.fn('Cos_Of_Acos_Divided_By_3')
        R.used(f)
        r = Run(P, f)
        x = Poly.sym('arg0')
        eq(R, 'kernel', 'Cos_Of_Acos_Divided_By_3', where(f, P), T.to_num(r.ret), T.app('cos', T.app('acos', x).scale('1/3')),
           domain=lambda env: 0 <= evalt.ev(x, env) <= 1, n=20, tol=1e-7)
    R.guard('kernel', 'Cos_Of_Acos_Divided_By_3', cosd3)
