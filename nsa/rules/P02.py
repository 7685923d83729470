"""Eight node hexahedron: interpolation tables, quadrature and every element kernel equal the isoparametric definitions,
for the pointer and the Kokkos entry points."""
import math
from .lib import *

UNITS = ['nimble_element.cc']
H = 'nimble::HexElement::'
# corner order of the element (natural coordinates)
NODE = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]
G = 1 / math.sqrt(3.0)


def N(n, r):
    a = NODE[n]
    return (1 + a[0] * r[0]) * (1 + a[1] * r[1]) * (1 + a[2] * r[2]) / 8


def dN(n, k, r):
    a = NODE[n]
    v = a[k] / 8
    for j in range(3):
        if j != k:
            v = v * (1 + a[j] * r[j])
    return v


def cells(env, root, path):
    """element shaped like a perturbed cube, right handed, of random size and position"""
    if path and isinstance(path[-1], (int, tuple)) and root.startswith('arg'):
        idx = path[-1]
        if isinstance(idx, int):
            n, k = divmod(idx, 3)
        else:
            n, k = idx
        kind = env.kind.get(root)
        if kind == 'x':
            s = env.rnd('scale', root)
            return 7 * env.rnd('off', k) + abs(s) * NODE[n][k] + 0.12 * abs(s) * env.rnd(root, n, k) / 1.9
        if kind == 'any':    # arbitrary points, anywhere
            return 9 * env.rnd('off', k) + env.rnd(root, n, k) * (0.1 if k == env.seed % 3 else 1)
        if kind == 'u':
            return 0.04 * env.rnd(root, n, k)
    return None


def run(P, R):
    R.rule('table', 'interpolation functions and derivatives of the eight nodes at an arbitrary point', 64)
    R.rule('quadrature', 'the integration rule is the 2x2x2 Gauss rule in node order with unit weights', 1)
    R.rule('kernel', 'value graph of the element kernel equals its isoparametric definition', 200)
    R.rule('length', 'the characteristic length is a length of the element for every placement', 1)
    T.Poly.BIG = 40
    ctor = P.fn(H + 'HexElement', 0)
    R.used(ctor)
    r0 = Run(P, ctor)
    mem = {k: v for k, v in r0.st.mem.items() if k[0] == 'this'}

    def memfor(f):
        return dict(mem)

    # ---- tables at a symbolic point
    def table(name, nd, val):
        f = P.fn(H + name)
        R.used(f)
        r = Run(P, f, mem=memfor(f))
        for p in range(8):
            x = [cell('arg0', 3 * p + k) for k in range(3)]
            for n in range(8):
                for k in range(nd):
                    got = r.at('arg1', (8 * p + n) * nd + k)
                    eq(R, 'table', '%s point %d node %d%s' % (name, p, n, ' d' + XYZ[k] if nd == 3 else ''), where(f, P), T.to_num(got), val(n, k, x))

    def Nt(n, k, x):
        a = NODE[n]
        v = c('1/8')
        for j in range(3):
            v = v * (ONE + x[j].scale(a[j]))
        return v

    def dNt(n, k, x):
        a = NODE[n]
        v = c('1/8').scale(a[k])
        for j in range(3):
            if j != k:
                v = v * (ONE + x[j].scale(a[j]))
        return v
    R.guard('table', 'values', table, 'ShapeFunctionValues', 1, Nt)
    R.guard('table', 'derivatives', table, 'ShapeFunctionDerivatives', 3, dNt)

    # ---- Gauss points
    gp = [tuple(G * v for v in a) for a in NODE]

    def const(x):
        return Poly.const(Fraction(x).limit_denominator(10 ** 15))
    D = [[[const(dN(n, k, g)) for k in range(3)] for n in range(8)] for g in gp]
    V = [[const(N(n, g)) for n in range(8)] for g in gp]

    def jac(X, p):
        return [[sum_([X[n][i] * D[p][n][j] for n in range(8)]) for j in range(3)] for i in range(3)]

    def grad(X, p):
        """dN_n/dx_i, det"""
        J = jac(X, p)
        d = det(J)
        # named, so that the terms stay small
        a = adj(J)
        g = [[sum_([D[p][n][j] * a[j][i] for j in range(3)]) * d.recip() for i in range(3)] for n in range(8)]
        return g, d

    def coords(root, view):
        return [[cell(root, (Poly.const(n), Poly.const(k))) if view else cell(root, 3 * n + k) for k in range(3)] for n in range(8)]

    def entry(name):
        out = {}
        for f in P.fns(H + name):
            out[any(p['t'].startswith('Kokkos::View') for p in f['params'])] = f
        if len(out) < 1:
            raise AnalysisError('no entry point %s' % name)
        return out

    def go(f, kinds, inst, got_want, intr=None):
        R.used(f)
        kind = kinds

        def cl(env, root, path):
            env.kind = kind
            return cells(env, root, path)
        for nm, g, w in got_want:
            eq(R, 'kernel', '%s %s' % (inst, nm), where(f, P), T.to_num(g), w, cells=cl, n=4, tol=1e-9 if False else 1e-7)

    def run_(f, args=None):
        return Run(P, f, mem=memfor(f), args=args, maxsteps=3000000)

    def at(r, root, view, i, j, w):
        return r.at(root, (Poly.const(i), Poly.const(j))) if view else r.at(root, w * i + j)

    # lumped mass
    def mass():
        for view, f in sorted(entry('ComputeLumpedMass').items()):
            r = run_(f)
            X = coords('arg1', view)
            dets = [det(jac(X, p)) for p in range(8)]
            rho = Poly.sym('arg0')
            go(f, {'arg1': 'x'}, 'lumped mass%s' % (' (view)' if view else ''),
               [('node %d' % n, r.at('arg2', n), sum_([rho * V[p][n] * dets[p] for p in range(8)])) for n in range(8)])
            nowrites_outside(R, 'kernel', 'lumped mass writes%s' % (' (view)' if view else ''), r, ['arg2'], where(f, P))
    R.guard('kernel', 'lumped mass', mass)

    def add(A, B):
        return [[a + b for a, b in zip(x, y)] for x, y in zip(A, B)]

    def cur(view):
        X = coords('arg0', view)
        return add(X, coords('arg1', view)) if view else X

    def defgrad():
        for view, f in sorted(entry('ComputeDeformationGradients').items()):
            r = run_(f)
            X = coords('arg0', view)
            x = add(X, coords('arg1', view)) if view else coords('arg1', view)
            gw = []
            for p in range(8):
                g, d = grad(X, p)
                F = [[sum_([x[n][i] * g[n][j] for n in range(8)]) for j in range(3)] for i in range(3)]
                for i in range(3):
                    for j in range(3):
                        gw.append(('point %d F%s%s' % (p, XYZ[i], XYZ[j]), at(r, 'arg2', view, p, F9[i, j], 9), F[i][j]))
            go(f, {'arg0': 'x', 'arg1': 'u' if view else 'x'}, 'deformation gradient%s' % (' (view)' if view else ''), gw)
            nowrites_outside(R, 'kernel', 'deformation gradient writes%s' % (' (view)' if view else ''), r, ['arg2'], where(f, P))
    R.guard('kernel', 'deformation gradient', defgrad)

    def forces():
        for view, f in sorted(entry('ComputeNodalForces').items()):
            r = run_(f)
            x = cur(view)
            sroot, oroot = ('arg2', 'arg3') if view else ('arg1', 'arg2')
            tot = [[ZERO] * 3 for _ in range(8)]
            for p in range(8):
                g, d = grad(x, p)
                S = [[cell(sroot, (Poly.const(p), Poly.const(S6[i, j]))) if view else cell(sroot, 6 * p + S6[i, j]) for j in range(3)] for i in range(3)]
                for n in range(8):
                    for i in range(3):
                        tot[n][i] = tot[n][i] - sum_([S[i][j] * g[n][j] for j in range(3)]) * d
            gw = [('node %d %s' % (n, XYZ[i]), at(r, oroot, view, n, i, 3), tot[n][i]) for n in range(8) for i in range(3)]
            go(f, {'arg0': 'x', 'arg1': 'u'} if view else {'arg0': 'x'}, 'nodal force%s' % (' (view)' if view else ''), gw)
            nowrites_outside(R, 'kernel', 'nodal force writes%s' % (' (view)' if view else ''), r, [oroot], where(f, P))
    R.guard('kernel', 'nodal force', forces)

    def volave():
        f = P.fn(H + 'ComputeVolumeAverage')
        nq = 2
        for nq in (1, 4):
            r = run_(f, args=[None, Poly.const(nq), None, None, None])
            X = coords('arg0', False)
            dets = [det(jac(X, p)) for p in range(8)]
            vol = sum_(dets)
            gw = [('volume', r.at(('arg3', ())), vol)]
            for q in range(nq):
                gw.append(('quantity %d' % q, r.at('arg4', q), sum_([cell('arg2', nq * p + q) * dets[p] for p in range(8)]) * vol.recip()))
            go(f, {'arg0': 'x'}, 'volume average of %d' % nq, gw)
        for name, w in (('ComputeVolumeAverageSymTensor', 6), ('ComputeVolumeAverageFullTensor', 9)):
            f = P.fn(H + name)
            r = run_(f)
            X = cur(True)
            dets = [det(jac(X, p)) for p in range(8)]
            vol = sum_(dets)
            gw = [('component %d' % q, r.at('arg3', q), sum_([cell('arg2', (Poly.const(p), Poly.const(q))) * dets[p] for p in range(8)]) * vol.recip())
                  for q in range(w)]
            go(f, {'arg0': 'x', 'arg1': 'u'}, name[len('Compute'):], gw)
        f = P.fn(H + 'ComputeVolume')
        r = run_(f)
        X = cur(True)
        wr = [e for e in r.trace if e.kind == 'write' and e.loc[0] == 'arg2']
        go(f, {'arg0': 'x', 'arg1': 'u'}, 'volume', [('', wr[-1].val if wr else ZERO, sum_([det(jac(X, p)) for p in range(8)]))])
    R.guard('kernel', 'volume average', volave)

    def tangent():
        f = P.fn(H + 'ComputeTangent')
        r = run_(f)
        x = coords('arg0', False)
        VO = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)]
        # the tangent is bilinear in the strain-displacement matrix: decided entry by entry
        want = {}
        for p in range(8):
            g, d = grad(x, p)
            B = [[None] * 24 for _ in range(6)]
            for n in range(8):
                for k in range(3):
                    for q, (i, j) in enumerate(VO):
                        if i == j:
                            B[q][3 * n + k] = g[n][i] if k == i else ZERO
                        else:
                            B[q][3 * n + k] = g[n][j] if k == i else g[n][i] if k == j else ZERO
            C = [[cell('arg1', 36 * p + 6 * a + b) for b in range(6)] for a in range(6)]
            for i, j in PAIRS:
                s = ZERO
                for a in range(6):
                    if B[a][i].m:
                        for b in range(6):
                            if B[b][j].m:
                                s = s + B[a][i] * C[a][b] * B[b][j]
                want[i, j] = want.get((i, j), ZERO) + s * d
        go(f, {'arg0': 'x'}, 'tangent', [('%d,%d' % (i, j), r.at('arg2', 24 * i + j), want[i, j]) for i, j in PAIRS])
    PAIRS = [(i, j) for i in range(24) for j in range(24) if (i * 24 + j) % 11 == 0 or i // 3 == j // 3 == 2]
    R.guard('kernel', 'tangent', tangent)

    def length():
        f = P.fn(H + 'ComputeCharacteristicLength')
        R.used(f)
        r = run_(f)
        X = coords('arg0', False)
        dist = None
        for i in range(8):
            for j in range(i + 1, 8):
                d2 = sum_([(X[i][k] - X[j][k]) * (X[i][k] - X[j][k]) for k in range(3)])
                dist = d2 if dist is None else T.minmax('min', dist, d2)
        L = T.app('sqrt', dist)
        for k in range(3):
            lo = hi = X[0][k]
            for n in range(1, 8):
                lo, hi = T.minmax('min', lo, X[n][k]), T.minmax('max', hi, X[n][k])
            L = T.minmax('min', L, hi - lo)

        def cl(env, root, path):
            env.kind = {'arg0': 'any'}
            return cells(env, root, path)
        eq(R, 'length', 'characteristic length', where(f, P), T.to_num(r.ret), L, cells=cl, n=10)
    R.guard('length', 'characteristic length', length)

    def dims():
        for name, v in (('Dim', 3), ('NumNodesPerElement', 8), ('NumIntegrationPointsPerElement', 8)):
            f = P.fn(H + name)
            R.used(f)
            eq(R, 'quadrature', name, where(f, P), T.to_num(Run(P, f).ret), c(v))
    R.guard('quadrature', 'dims', dims)
