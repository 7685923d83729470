"""Host element blocks: gather through the connectivity, evaluate the element and the material on the gathered values, scatter to the same nodes."""
from .lib import *
from .P20 import element

UNITS = ['nimble_block.cc', 'nimble_block_base.cc', 'nimble_element.cc', 'nimble_data_utils.cc', 'nimble_data_manager.cc', 'nimble_material_factory_base.cc', 'nimble_material_factory.cc', 'nimble_material.cc']
NS = 'nimble::'
B = NS + 'Block::'
NEL, NN, NIP, DIM = 2, 8, 3, 3
STATE = ['alpha', 'global_elem_id', 'ipt_id']
FULL = ['xx', 'yy', 'zz', 'xy', 'yz', 'zx', 'yx', 'zy', 'xz']
SYM = ['xx', 'yy', 'zz', 'xy', 'yz', 'zx']


def const(v):
    return lambda I, e, st, fr: Poly.const(v)


def labels():
    inner = ['deformation_gradient_' + x for x in FULL] + ['stress_' + x for x in SYM] + STATE
    inner = inner[11:] + inner[4:11][::-1] + inner[:4]
    return ['ipt%02d_%s' % (p + 1, l) for p in range(NIP) for l in inner]


class Cap:
    """what the element and the material were given, and the symbolic values they return"""

    def __init__(self):
        self.calls = {}

    def grab(self, I, st, v, n):
        return [T.to_num(I.load(st, I.index(v, Poly.const(k), None), 'double')) for k in range(n)]

    def hook(self, name, ins, outs, scal=()):
        def go(I, e, st, fr):
            vs = [I.rv(a, st, fr) for a in e['args']]
            lst = self.calls.setdefault(name, [])
            c = {'args': vs}
            for i, n in ins.items():
                c[i] = self.grab(I, st, vs[i], n)
            k = len(lst)
            lst.append(c)
            for i, n in outs.items():
                for j in range(n):
                    I.store(st, I.index(vs[i], Poly.const(j), None), Poly.sym('%s%d.%d.%d' % (name, k, i, j)))
            for i in scal:
                I.store(st, I.lv(e['args'][i], st, fr), Poly.sym('%s%d.%d' % (name, k, i)))
            return T.VOID
        return go


def out(name, k, i, j):
    return Poly.sym('%s%d.%d.%d' % (name, k, i, j))


def consts():
    def label(I, e, st, fr):
        k = T.to_num(I.rv(e['args'][0], st, fr)).as_int()
        a = e['args'][1]
        while a['k'] == 'Cast':
            a = a['e']
        I.store(st, I.lv(a, st, fr), T.strv(STATE[k]))
        return T.VOID

    def init(I, e, st, fr):
        k = T.to_num(I.rv(e['args'][0], st, fr)).as_int()
        return Poly.sym('init.%s' % STATE[k])
    return {NS + 'Element::Dim': const(DIM), NS + 'Element::NumNodesPerElement': const(NN), NS + 'Element::NumIntegrationPointsPerElement': const(NIP),
            NS + 'Material::NumStateVariables': const(len(STATE)), NS + 'Material::GetStateVariableLabel': label,
            NS + 'Material::GetStateVariableInitialValue': init, NS + 'Material::GetDensity': lambda I, e, st, fr: Poly.sym('rho')}


def vec(root, vals):
    m = {(root, (('f', '#size'),)): Poly.const(len(vals))}
    for i, v in enumerate(vals):
        m[(root, (('i', Poly.const(i)),))] = v
    return m


def conn(root, e, n):
    return cell(root, NN * e + n)


def at(root, idx):
    return Poly.atom(('ld', (root, (('i', idx),)), ''))


CT = {}


def cells(roots):
    """small node numbers, so that elements share nodes"""
    def go(env, root, path):
        if root in roots or root == 'node':
            return int(env.rnd(root, *path) * 1e6) % 5
        return None
    return go


def run(P, R):
    R.rule('initial', 'element data starts at the identity deformation gradient, zero stress and the initial state of the material', 100)
    R.rule('gather', 'element kernels and materials receive the reference and current coordinates and the data of their own element', 200)
    R.rule('keep', 'new deformation gradient, stress and state are stored where the old ones were read', 100)
    R.rule('scatter', 'nodal contributions of every element are added to the nodes of that element and nothing else', 12)
    R.rule('derived', 'derived data of an element are the volume and the volume averages of the requested quantities', 20)
    R.rule('labels', 'the block declares deformation gradient, stress and state of every integration point', 1)
    T.Poly.BIG = 60
    st = {}
    R.guard('initial', 'InitializeElementData', initial, P, R, st)
    R.guard('gather', 'ComputeInternalForce', force, P, R, st, False)
    R.guard('gather', 'ComputeInternalForce (stress only)', force, P, R, st, True)
    R.guard('scatter', 'ComputeLumpedMassMatrix', mass, P, R)
    R.guard('derived', 'ComputeDerivedElementData', derived, P, R, st)
    R.guard('labels', 'GetDataLabelsAndLengths', declare, P, R)
    R.guard('gather', 'elements of a block', element, P, R, 'gather', 0)
    R.rule('timestep', 'the critical time step of a block is the smallest characteristic length over the sound speed, at the current coordinates', 50)
    R.rule('tangent', 'the element tangent is evaluated at the current coordinates and added at the global unknowns of its nodes', 60)
    R.guard('timestep', 'ComputeCriticalTimeStep', critical, P, R)
    R.guard('tangent', 'ComputeTangentStiffnessMatrix', tangent, P, R)


DER = ['stress_yy', 'volume', 'deformation_gradient_zx', 'alpha']


def initial(P, R, S):
    f = P.fn(B + 'InitializeElementData')
    R.used(f)
    lab = labels()
    mem = {}
    mem.update(vec('arg2', [T.strv(l) for l in lab]))
    mem.update(vec('arg3', [T.strv(l) for l in DER]))
    r = Run(P, f, args=[Poly.const(NEL)] + [None] * 7, mem=mem, intr=consts())
    n = len(lab)
    for e in range(NEL):
        for k, l in enumerate(lab):
            p, q = int(l[3:5]), l[6:]
            if q in ('deformation_gradient_xx', 'deformation_gradient_yy', 'deformation_gradient_zz'):
                w = ONE
            elif q == 'global_elem_id':
                w = cell('arg1', e)
            elif q == 'ipt_id':
                w = Poly.const(p)
            elif q == 'alpha':
                w = Poly.sym('init.alpha')
            else:
                w = ZERO
            for a, nm in (('arg4', 'step N'), ('arg5', 'step N+1')):
                eq(R, 'initial', '%s element %d %s' % (nm, e, l), where(f, P), T.to_num(r.at(a, e * n + k)), w)
    nowrites_outside(R, 'initial', 'frame', r, ['arg4', 'arg5', 'this'], where(f, P))
    S['mem'] = {k: v for k, v in r.st.mem.items() if k[0] == 'this'}
    S['labels'] = lab


def force(P, R, S, stress_only):
    if 'mem' not in S:
        raise AnalysisError('element data initialisation was not analysed')
    f = P.fn(B + 'ComputeInternalForce')
    R.used(f)
    lab = S['labels']
    nl = len(lab)
    pos = {l: i for i, l in enumerate(lab)}
    cap = Cap()
    intr = consts()
    intr[NS + 'Element::ComputeDeformationGradients'] = cap.hook('F', {0: 24, 1: 24}, {2: 9 * NIP})
    intr[NS + 'Material::GetStress'] = cap.hook('S', {4: 9 * NIP, 5: 9 * NIP, 6: 6 * NIP, 8: NIP * len(STATE)}, {7: 6 * NIP, 9: NIP * len(STATE)})
    intr[NS + 'Element::ComputeNodalForces'] = cap.hook('N', {0: 24, 1: 6 * NIP}, {2: 24})
    mem = dict(S['mem'])
    mem.update(vec('arg9', [T.strv(l) for l in lab]))
    args = [None] * 15
    args[6] = Poly.const(NEL)
    args[14] = TRUE if stress_only else FALSE
    r = Run(P, f, args=args, mem=mem, intr=intr)
    for g in P.functions.values():
        if g['q'] == NS + 'ComputeInternalForceFunctor::operator()':
            R.used(g)
    wh = where(f, P)
    tag = ' (stress only)' if stress_only else ''
    cs = cells(('arg7',))
    ncall = [len(cap.calls.get(k, ())) for k in 'FSN']
    R.check(ncall == [NEL, NEL, 0 if stress_only else NEL], 'gather', 'one evaluation per element' + tag, wh, 'deformation gradient, stress, nodal force evaluated %s times for %d elements' % (ncall, NEL))
    if ncall[:2] != [NEL, NEL]:
        return

    def q(n, a, b, g, w):
        eq(R, a, b + tag, wh, g, w, cells=cs)
    for e in range(NEL):
        c = cap.calls['F'][e]
        for n in range(NN):
            for i in range(DIM):
                j = conn('arg7', e, n).scale(3) + Poly.const(i)
                x, u = at('arg0', j), at('arg1', j)
                q(0, 'gather', 'element %d reference coordinate %d%s' % (e, n, XYZ[i]), c[0][3 * n + i], x)
                q(0, 'gather', 'element %d current coordinate %d%s' % (e, n, XYZ[i]), c[1][3 * n + i], x + u)
                if not stress_only:
                    q(0, 'gather', 'element %d force coordinates %d%s' % (e, n, XYZ[i]), cap.calls['N'][e][0][3 * n + i], x + u)
        s = cap.calls['S'][e]
        q(0, 'gather', 'element %d id' % e, T.to_num(s['args'][0]), cell('arg8', e))
        q(0, 'gather', 'element %d points' % e, T.to_num(s['args'][1]), Poly.const(NIP))
        q(0, 'gather', 'element %d start time' % e, T.to_num(s['args'][2]), Poly.sym('arg4'))
        q(0, 'gather', 'element %d end time' % e, T.to_num(s['args'][3]), Poly.sym('arg5'))
        for p in range(NIP):
            def off(l):
                return e * nl + pos['ipt%02d_%s' % (p + 1, l)]
            for k, x in enumerate(FULL):
                o = off('deformation_gradient_' + x)
                q(0, 'gather', 'element %d point %d old F_%s' % (e, p, x), s[4][9 * p + k], cell('arg10', o))
                q(0, 'gather', 'element %d point %d new F_%s' % (e, p, x), s[5][9 * p + k], out('F', e, 2, 9 * p + k))
                q(0, 'keep', 'element %d point %d F_%s' % (e, p, x), T.to_num(r.at('arg11', o)), out('F', e, 2, 9 * p + k))
            for k, x in enumerate(SYM):
                o = off('stress_' + x)
                q(0, 'gather', 'element %d point %d old stress_%s' % (e, p, x), s[6][6 * p + k], cell('arg10', o))
                q(0, 'keep', 'element %d point %d stress_%s' % (e, p, x), T.to_num(r.at('arg11', o)), out('S', e, 7, 6 * p + k))
                if not stress_only:
                    q(0, 'gather', 'element %d point %d force stress_%s' % (e, p, x), cap.calls['N'][e][1][6 * p + k], out('S', e, 7, 6 * p + k))
            for k, x in enumerate(STATE):
                o = off(x)
                m = len(STATE)
                q(0, 'gather', 'element %d point %d old state %d' % (e, p, k), s[8][m * p + k], cell('arg10', o))
                q(0, 'keep', 'element %d point %d state %d' % (e, p, k), T.to_num(r.at('arg11', o)), out('S', e, 9, m * p + k))
    node = cell('node')
    for i in range(DIM):
        j = node.scale(3) + Poly.const(i)
        w = at('arg3', j)
        if not stress_only:
            for e in range(NEL):
                for n in range(NN):
                    w = w + T.to_num(T.ite(T.b_eq(conn('arg7', e, n), node), out('N', e, 2, 3 * n + i), ZERO))
        eq(R, 'scatter', 'internal force %s%s' % (XYZ[i], tag), wh, T.to_num(r.at('arg3', j)), w, cells=cs)
    nowrites_outside(R, 'scatter', 'frame' + tag, r, ['arg3', 'arg11'], wh)
    # every element is visited, and contributions of elements evaluated together are combined atomically
    cap2 = Cap()
    intr2 = consts()
    intr2[NS + 'Element::ComputeDeformationGradients'] = cap2.hook('F', {0: 24, 1: 24}, {2: 9 * NIP})
    intr2[NS + 'Material::GetStress'] = cap2.hook('S', {4: 9 * NIP, 5: 9 * NIP, 6: 6 * NIP, 8: NIP * len(STATE)}, {7: 6 * NIP, 9: NIP * len(STATE)})
    intr2[NS + 'Element::ComputeNodalForces'] = cap2.hook('N', {0: 24, 1: 6 * NIP}, {2: 24})
    args[6] = None
    r2 = Run(P, f, args=args, mem=mem, intr=intr2)
    ws = [e for e in r2.trace if e.kind in ('write', 'atomic') and e.loc[0] in ('arg3', 'arg11')]
    full = [e for e in ws if len(e.loops) == 1 and T.vstr(e.loops[0].n) == 'arg6']
    R.check(bool(ws) and len(full) == len(ws), 'scatter', 'every element is visited' + tag, wh, 'element loop does not cover arg6 elements: %s' % (str((ws or ['no write'])[0])[:200]))
    plain = [e for e in ws if e.loc[0] == 'arg3' and e.obj != 'atomic' and e.loops and getattr(e.loops[0], 'par', False)]
    R.check(not plain, 'scatter', 'concurrent force contributions are atomic' + tag, plain[0].where() if plain else wh, 'plain update of the shared internal force in a parallel loop')


def mass(P, R):
    f = P.fn(B + 'ComputeLumpedMassMatrix')
    R.used(f)
    cap = Cap()
    intr = consts()
    intr[NS + 'Element::ComputeLumpedMass'] = cap.hook('M', {1: 24}, {2: 8})
    r = Run(P, f, args=[None, Poly.const(NEL), None, None], intr=intr)
    wh = where(f, P)
    cs = cells(('arg2',))
    c = cap.calls.get('M', [])
    R.check(len(c) == NEL, 'scatter', 'one mass evaluation per element', wh, '%d evaluations' % len(c))
    if len(c) != NEL:
        return
    for e in range(NEL):
        eq(R, 'gather', 'mass element %d density' % e, wh, T.to_num(c[e]['args'][0]), Poly.sym('rho'))
        for n in range(NN):
            for i in range(DIM):
                eq(R, 'gather', 'mass element %d coordinate %d%s' % (e, n, XYZ[i]), wh, c[e][1][3 * n + i], at('arg0', conn('arg2', e, n).scale(3) + Poly.const(i)), cells=cs)
    node = cell('node')
    w = at('arg3', node)
    for e in range(NEL):
        for n in range(NN):
            w = w + T.to_num(T.ite(T.b_eq(conn('arg2', e, n), node), out('M', e, 2, n), ZERO))
    eq(R, 'scatter', 'lumped mass', wh, T.to_num(r.at('arg3', node)), w, cells=cs)
    nowrites_outside(R, 'scatter', 'mass frame', r, ['arg3'], wh)


def derived(P, R, S):
    if 'mem' not in S:
        raise AnalysisError('element data initialisation was not analysed')
    f = P.fn(B + 'ComputeDerivedElementData')
    R.used(f)
    lab = S['labels']
    nl = len(lab)
    pos = {l: i for i, l in enumerate(lab)}
    cap = Cap()
    intr = consts()
    va = [d for d in DER if d != 'volume']
    intr[NS + 'Element::ComputeVolumeAverage'] = cap.hook('V', {0: 24, 2: NIP * len(va)}, {4: len(va)}, [3])
    mem = dict(S['mem'])
    mem[('arg7', (('f', '#size'),))] = Poly.const(len(DER))
    args = [None] * 8
    args[2] = Poly.const(NEL)
    args[4] = Poly.const(nl)
    args[6] = Poly.const(len(DER))
    r = Run(P, f, args=args, mem=mem, intr=intr)
    wh = where(f, P)
    c = cap.calls.get('V', [])
    R.check(len(c) == NEL, 'derived', 'one volume average per element', wh, '%d evaluations' % len(c))
    if len(c) != NEL:
        return
    for e in range(NEL):
        eq(R, 'derived', 'element %d quantities' % e, wh, T.to_num(c[e]['args'][1]), Poly.const(len(va)))
        for n in range(NN):
            for i in range(DIM):
                j = conn('arg3', e, n).scale(3) + Poly.const(i)
                eq(R, 'derived', 'element %d coordinate %d%s' % (e, n, XYZ[i]), wh, c[e][0][3 * n + i], at('arg0', j) + at('arg1', j), cells=cells(('arg3',)))
        # position of each quantity in the interleaved input is fixed by the outputs it is stored to
        for k, d in enumerate(DER):
            got = T.to_num(r.at(('arg7', (('i', Poly.const(k)),)), e))
            if d == 'volume':
                eq(R, 'derived', 'element %d volume' % e, wh, got, Poly.sym('V%d.3' % e))
                continue
            slot = [j for j in range(len(va)) if got == out('V', e, 4, j)]
            R.check(len(slot) == 1, 'derived', 'element %d %s' % (e, d), wh, 'stored value is %s, not an average' % T.vstr(got)[:120])
            if len(slot) == 1:
                for p in range(NIP):
                    eq(R, 'derived', 'element %d %s point %d' % (e, d, p), wh, c[e][2][p * len(va) + slot[0]], cell('arg5', e * nl + pos['ipt%02d_%s' % (p + 1, d)]))


def declare(P, R):
    f = P.fn(B + 'GetDataLabelsAndLengths')
    R.used(f)
    r = Run(P, f, mem={('arg0', (('f', '#size'),)): ZERO}, intr=consts())
    n = r.I.size_of(r.st, ('arg0', ()), '').as_int()
    got = []
    for i in range(n or 0):
        got.append((T.vstr(r.fld(('arg0', (('i', Poly.const(i)),)), 'first', t='std::basic_string<char>')), T.vstr(r.fld(('arg0', (('i', Poly.const(i)),)), 'second', t='int'))))
    en = {k.split('::')[-1]: v for k, v in P.enumconsts.items()} if hasattr(P, 'enumconsts') else {}
    want = set()
    for p in range(NIP):
        for l, t in [('deformation_gradient', 'FULL_TENSOR'), ('stress', 'SYMMETRIC_TENSOR')] + [(s, 'SCALAR') for s in STATE]:
            want.add(('"ipt%02d_%s"' % (p + 1, l), t))
    R.check(set(x[0] for x in got) == set(x[0] for x in want) and len(got) == len(want), 'labels', 'labels of one element', where(f, P), 'declares %s' % got[:6])
    kinds = {}
    for l, t in got:
        for w in want:
            if w[0] == l:
                kinds.setdefault(w[1], set()).add(t)
    R.check(len(kinds) == 3 and all(len(v) == 1 for v in kinds.values()) and len(set.union(*kinds.values())) == 3, 'labels', 'lengths', where(f, P), 'lengths %s' % kinds)


def ptr(root):
    return Val('ptr', (root, (('i', ZERO),)))


def critical(P, R):
    """small meshes: the element lengths are symbols, so the result must be their minimum over the sound speed"""
    f = P.fn(NS + 'BlockBase::ComputeCriticalTimeStep')
    R.used(f)
    wh = where(f, P)
    got = []

    def length(I, e, st, fr):
        p = I.rv(e['args'][0], st, fr)
        got.append([T.to_num(I.load(st, I.index(p, Poly.const(k), None), 'double')) for k in range(24)])
        return Poly.sym('L%d' % (len(got) - 1))
    intr = consts()
    intr[NS + 'Element::ComputeCharacteristicLength'] = length
    for k in ('BlockBase', 'Block'):
        intr[NS + k + '::GetBulkModulus'] = lambda I, e, st, fr: Poly.sym('bulk')
        intr[NS + k + '::GetDensity'] = lambda I, e, st, fr: Poly.sym('rho')
    mem = {}
    for a, root in (('arg0', 'X'), ('arg1', 'U')):
        mem[(a, (('f', 'data_'),))] = ptr(root)
        mem[(a, (('f', 'stride_'), ('i', ZERO)))] = Poly.const(3)
        mem[(a, (('f', 'stride_'), ('i', ONE)))] = ONE
    for ne in (0, 1, 3):
        del got[:]
        r = Run(P, f, args=[None, None, Poly.const(ne), None], mem=mem, intr=intr)
        R.check(len(got) == ne, 'timestep', '%d elements: one length each' % ne, wh, '%d lengths' % len(got))
        if len(got) != ne:
            continue
        for e in range(ne):
            for n in range(NN):
                for i in range(DIM):
                    j = conn('arg3', e, n).scale(3) + Poly.const(i)
                    eq(R, 'timestep', '%d elements: element %d coordinate %d%s' % (ne, e, n, XYZ[i]), wh, got[e][3 * n + i], at('X', j) + at('U', j), cells=cells(('arg3',)))
        if ne == 0:
            R.check(T.to_num(r.ret) != ZERO, 'timestep', 'an empty block does not restrict the step', wh, 'the result is zero')
            continue
        best = Poly.sym('L0')
        for e in range(1, ne):
            x = Poly.sym('L%d' % e)
            best = T.to_num(T.ite(T.b_gt0(best - x), x, best))
        want = best * T.app('sqrt', Poly.sym('rho').div(Poly.sym('bulk')))
        eq(R, 'timestep', '%d elements: smallest' % ne, wh, T.to_num(r.ret), want)


def tangent(P, R):
    """the matrix is a stand-in that records every addition; the sum per entry is compared with direct assembly"""
    fs = [g for g in P.functions.values() if g['q'] == NS + 'BlockBase::ComputeTangentStiffnessMatrix']
    R.check(len(fs) >= 1, 'tangent', 'instances', '', 'no assembly function')
    for f in fs:
        R.used(f)
        tangent1(P, R, f)


def tangent1(P, R, f):
    wh = where(f, P)
    M = 24
    nm = f['params'][6]['t'].split('::')[-1].strip(' &')
    C = [[3, 1, 0, 2, 7, 5, 4, 6], [1, 8, 2, 0, 5, 9, 6, 4]]
    G = [4, 0, 3, 1, 2, 7, 9, 5, 8, 6]
    cap = Cap()
    intr = consts()
    tang = [0]
    cap_in = []

    def el(I, e, st, fr):
        x, m, k = (I.rv(a, st, fr) for a in e['args'])
        cap_in.append((cap.grab(I, st, x, M), cap.grab(I, st, m, 36 * NIP)))
        for i in range(M * M):
            I.store(st, I.index(k, Poly.const(i), None), Poly.sym('K%d.%d.%d' % (len(cap_in) - 1, i // M, i % M)))
        return T.VOID

    def mt(I, e, st, fr):
        R.check(T.to_num(I.rv(e['args'][0], st, fr)) == Poly.const(NIP), 'tangent', '%s: material tangent points' % nm, wh, 'number of points')
        p = I.rv(e['args'][1], st, fr)
        for i in range(36 * NIP):
            I.store(st, I.index(p, Poly.const(i), None), Poly.sym('D%d' % i))
        return T.VOID

    def entry(I, e, st, fr):
        a = [T.to_num(I.rv(x, st, fr)) for x in e['args'][-2:]]
        return Val('lref', ('MAT', (('i', a[0]), ('i', a[1]))))
    intr[NS + 'Element::ComputeTangent'] = el
    intr[NS + 'Material::GetTangent'] = mt
    intr[NS + nm + '::operator()'] = entry
    mem = {}
    for e in range(NEL):
        for n in range(NN):
            mem[('arg4', (('i', Poly.const(NN * e + n)),))] = Poly.const(C[e][n])
    for n in range(10):
        mem[('arg5', (('i', Poly.const(n)),))] = Poly.const(G[n])
    for i in range(30):
        for j in range(30):
            mem[('MAT', (('i', Poly.const(i)), ('i', Poly.const(j))))] = ZERO
    r = Run(P, f, args=[Poly.const(30), None, None, Poly.const(NEL), None, None, None], mem=mem, intr=intr)
    R.check(len(cap_in) == NEL, 'tangent', '%s: one tangent per element' % nm, wh, '%d' % len(cap_in))
    if len(cap_in) != NEL:
        return
    for e in range(NEL):
        for n in range(NN):
            for i in range(DIM):
                eq(R, 'tangent', '%s: element %d coordinate %d%s' % (nm, e, n, XYZ[i]), wh, cap_in[e][0][3 * n + i], cell('arg1', 3 * C[e][n] + i) + cell('arg2', 3 * C[e][n] + i))
        ok = all(x == Poly.sym('D%d' % i) for i, x in enumerate(cap_in[e][1]))
        R.check(ok, 'tangent', '%s: element %d uses the material tangent' % (nm, e), wh, 'another tangent')
    for a in range(10):
        for b in range(10):
            bad = None
            for i in range(3):
                for j in range(3):
                    w = ZERO
                    for e in range(NEL):
                        for p in range(NN):
                            for q in range(NN):
                                if G[C[e][p]] == a and G[C[e][q]] == b:
                                    w = w + Poly.sym('K%d.%d.%d' % (e, 3 * p + i, 3 * q + j))
                    g = T.to_num(r.at('MAT', 3 * a + i, 3 * b + j))
                    if g != w:
                        bad = 'entry (%d,%d) is %s, required %s' % (3 * a + i, 3 * b + j, T.vstr(g)[:120], T.vstr(w)[:120])
            R.check(bad is None, 'tangent', '%s: block of nodes %d, %d' % (nm, a, b), wh, bad or '')
