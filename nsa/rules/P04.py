"""Constitutive models: stress and tangent of every registered model equal their definition, for every deformation gradient."""
from .lib import *

UNITS = ['nimble_material.cc', 'nimble_kokkos_block_material_interface.cc', 'nimble_kokkos_material_factory.cc', 'nimble_material_factory.cc',
         'nimble_material_factory_base.cc']
NS = 'nimble::'
CLS = ('ElasticMaterial', 'NeohookeanMaterial')


def param(name):
    return Poly.sym('param:' + name)


def param_intr(reads):
    def go(I, e, st, fr):
        s = I.rv(e['args'][0], st, fr)
        if not (isinstance(s, Val) and s.tag == 'str'):
            raise AnalysisError('parameter name is not a literal')
        reads.append(s.a[0])
        return param(s.a[0])
    return go


def run(P, R):
    R.rule('stress', 'each stress component equals the model definition at every integration point', 40)
    R.rule('tangent', 'each tangent entry is the linearised isotropic stiffness in the stored Voigt order', 100)
    R.rule('parameter', 'each model reads exactly the parameters it registers, and exposes them unchanged', 8)
    R.rule('frame', 'the stress evaluation writes only the new stress', 4)
    T.Poly.BIG = 60
    K, G = param('bulk_modulus'), param('shear_modulus')
    for C in CLS:
        R.guard('stress', C, model, P, R, C, K, G)
    R.guard('parameter', 'registry', registry, P, R)


def build(P, R, C):
    reads = []
    f = P.fn(NS + C + '::' + C, 1, lambda f: f.get('ctor') and 'MaterialParameters' in f['params'][0]['t'])
    R.used(f)
    r = Run(P, f, intr={NS + 'MaterialParameters::GetParameterValue': param_intr(reads)})
    mem = {k: v for k, v in r.st.mem.items() if k[0] == 'this'}
    return mem, reads, f


def spec(C, F, K, G):
    I3 = [[ONE if i == j else ZERO for j in range(3)] for i in range(3)]
    if C == 'ElasticMaterial':
        e = [[(F[i][j] + F[j][i]).scale('1/2') - I3[i][j] for j in range(3)] for i in range(3)]
        t = e[0][0] + e[1][1] + e[2][2]
        lam = K - G.scale('2/3')
        return [[e[i][j] * G.scale(2) + lam * t * I3[i][j] for j in range(3)] for i in range(3)]
    J = det(F)
    b = mm(F, tr(F))
    q = T.app('cbrt', J)
    f = (q * q).recip()
    tb = (b[0][0] + b[1][1] + b[2][2]).scale('1/3')
    p = K.scale('1/2') * (J - J.recip())
    return [[p * I3[i][j] + G * f * (b[i][j] - tb * I3[i][j]) * J.recip() for j in range(3)] for i in range(3)]


def cells(env, root, path):
    """deformation gradients with positive determinant"""
    if root == env.F and path and isinstance(path[-1], int):
        p, k = divmod(path[-1], 9)
        x = env.rnd(root, p, k)
        return 1 + 0.2 * x if k < 3 else 0.25 * x
    return None


def model(P, R, C, K, G):
    mem, reads, ctor = build(P, R, C)
    intr = {'Eigen_Sym33_NonUnit': eig_intr}
    # accessors
    for acc, name in (('GetDensity', 'density'), ('GetBulkModulus', 'bulk_modulus'), ('GetShearModulus', 'shear_modulus')):
        f = P.fn(NS + C + '::' + acc)
        R.used(f)
        eq(R, 'parameter', '%s::%s' % (C, acc), where(f, P), T.to_num(Run(P, f, mem=mem).ret), param(name))
    f = P.fn(NS + C + '::NumStateVariables')
    nsv = T.to_num(Run(P, f, mem=mem).ret)
    # registered names
    f = P.fn(NS + C + '::register_supported_material_parameters')
    R.used(f)
    reg = {'double': [], 'string': []}

    def regi(kind):
        def go(I, e, st, fr):
            s = I.rv(e['args'][0], st, fr)
            reg[kind].append(s.a[0] if isinstance(s, Val) and s.tag == 'str' else T.vstr(s))
            return T.VOID
        return go
    Run(P, f, intr={NS + 'MaterialFactoryBase::add_valid_double_parameter_name': regi('double'),
                    NS + 'MaterialFactoryBase::add_valid_string_parameter_name': regi('string')})
    R.check(set(reads) <= set(reg['double']), 'parameter', C + ' reads registered parameters', where(f, P),
            'reads %s, registers %s' % (sorted(set(reads)), sorted(reg['double'])))
    R.check(set(reg['double']) <= set(reads), 'parameter', C + ' uses every registered parameter', where(f, P),
            'registers %s, reads %s' % (sorted(reg['double']), sorted(set(reads))))

    # stress entry points
    n = 3
    entry = [f for f in P.fns(NS + C + '::GetStress')] + [f for f in P.fns(NS + 'Material::GetStress') if f.get('body')]

    def dom(root):
        def d(env):
            env.F = root
            return True
        return d

    def ctx(root):
        def cl(env, r, path):
            env.F = root
            return cells(env, r, path)
        return cl

    def view(I, st, root, n):
        return None
    done = 0
    for f in entry:
        R.used(f)
        pn = [p['t'] for p in f['params']]
        if len(pn) == 12:
            args = [None] * 12
            args[1] = Poly.const(n)
            r = Run(P, f, args=args, mem=mem, intr=intr)
            for pt in range(n):
                F = [[cell('arg5', 9 * pt + F9[i, j]) for j in range(3)] for i in range(3)]
                S = spec(C, F, K, G)
                for (i, j) in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)):
                    eq(R, 'stress', '%s point %d %s%s' % (C, pt, XYZ[i], XYZ[j]), where(f, P), T.to_num(r.at('arg7', 6 * pt + S6[i, j])), S[i][j],
                       cells=ctx('arg5'))
            nowrites_outside(R, 'frame', C + ' stress (arrays)', r, ['arg7'], where(f, P))
            # symbolic number of points: every point is visited
            wr = [e for e in r.trace if e.kind == 'write' and e.loc[0] == 'arg7']
            R.check(len({T.lstr(e.loc) for e in wr}) == 6 * n, 'frame', C + ' stress covers every point', where(f, P),
                    '%d entries written for %d points' % (len({T.lstr(e.loc) for e in wr}), n))
            done += 1
        elif len(pn) == 8:
            # device entry point: dispatches to the model
            target = [g for g in P.fns(NS + C + '::GetStress') if len(g['params']) == 6]
            if not target:
                continue
            r = Run(P, f, mem=mem, intr=intr, resolve={NS + 'Material::GetStress': target[0]['key']})
            F = [[cell('arg3', F9[i, j]) for j in range(3)] for i in range(3)]
            S = spec(C, F, K, G)
            for (i, j) in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)):
                got = r.at('arg5', S6[i, j])
                eq(R, 'stress', '%s device %s%s' % (C, XYZ[i], XYZ[j]), where(f, P), T.to_num(got), S[i][j], cells=ctx('arg3'))
            nowrites_outside(R, 'frame', C + ' stress (device)', r, ['arg5'], where(f, P))
            done += 1
    if done < 2:
        R.und('stress', C, '', 'only %d stress entry points recognised' % done)

    f = P.fn(NS + C + '::GetTangent')
    R.used(f)
    r = Run(P, f, args=[Poly.const(n), None], mem=mem)
    lam = K - G.scale('2/3')
    for pt in range(n):
        for i in range(6):
            for j in range(6):
                w = ZERO
                if i < 3 and j < 3:
                    w = w + lam
                if i == j:
                    w = w + (G.scale(2) if i < 3 else G)
                eq(R, 'tangent', '%s point %d (%d,%d)' % (C, pt, i, j), where(f, P), T.to_num(r.at('arg1', 36 * pt + 6 * i + j)), w)
    nowrites_outside(R, 'frame', C + ' tangent', r, ['arg1'], where(f, P))


def registry(P, R):
    pass
