"""Device model data: the fields, the element loops and the output of the executable's model, evaluated on a two block mesh."""
from .lib import *
from .P20 import element
from ..core import views

UNITS = ['nimble_kokkos_model_data.cc', 'nimble_kokkos_block.cc', 'nimble_kokkos_block_material_interface.cc', 'nimble_kokkos_block_material_interface_factory.cc', 'nimble_model_data_base.cc', 'nimble_data_manager.cc', 'nimble_material_factory_base.cc', 'nimble_kokkos_material_factory.cc', 'nimble_material.cc', 'nimble_element.cc']
NS = 'nimble::'
NK = 'nimble_kokkos::'
MD = NK + 'ModelData'
# blocks out of order, sharing nodes; node 12 belongs to no element
CONN = {7: [[3, 1, 0, 2, 7, 5, 4, 6], [1, 8, 2, 0, 5, 9, 6, 4]], 3: [[8, 9, 10, 11, 1, 5, 4, 0]]}
NNODE = 13
NIP = 8
FULL = ['xx', 'yy', 'zz', 'xy', 'yz', 'zx', 'yx', 'zy', 'xz']
SYM = FULL[:6]


class World:
    """values produced by elements, materials and the communicator, keyed by what they were given"""

    def __init__(self, state=0):
        self.memo = {}
        self.log = []
        self.state = state

    def val(self, name, key, n):
        k = (name, tuple(key))
        if k not in self.memo:
            i = len(self.memo)
            self.memo[k] = [Poly.sym('%s%d.%d' % (name, i, j)) for j in range(n)]
        return self.memo[k]


def cells_of(w):
    """flat cell offsets of a view, row by row"""
    offs = [w.a[1]]
    for s, x in zip(w.a[2], w.a[3]):
        offs = [o + s.scale(k) for o in offs for k in range(x.as_int())]
    return [(w.a[0], (('i', o),)) for o in offs]


def grab(I, st, w):
    if not (isinstance(w, Val) and w.tag == 'vw'):
        raise AnalysisError('a view was expected: %s' % T.vstr(w)[:80])
    return [T.to_num(I.load(st, l, 'double')) for l in cells_of(w)]


def put(I, st, w, vals):
    ls = cells_of(w)
    if len(ls) != len(vals):
        raise AnalysisError('result of %d entries stored to a view of %d' % (len(vals), len(ls)))
    for l, v in zip(ls, vals):
        I.store(st, l, v)


def objid(I, e, st, fr):
    v = I.rv(e['obj'], st, fr)
    l = I.deref(v, st)
    return str(l[0])


# kinds of state of a material point: name, accessor, components
KINDS = [('scalar', 'Scalar', 1), ('vec3D', 'Vector', 3), ('sym_tensor', 'SymTensor', 6), ('full_tensor', 'FullTensor', 9)]
ELEMSTATE = {}


def kernel(w, name, ins, out, nout, scal=()):
    def go(I, e, st, fr):
        if len(e['args']) <= max(list(ins) + [out]):
            return NotImplemented
        o = objid(I, e, st, fr)
        vs = [I.rv(a, st, fr) for a in e['args']]
        key = [o] + [T.to_num(vs[i]) for i in scal]
        for i in ins:
            key += grab(I, st, vs[i])
        n = len(cells_of(vs[out]))
        state = []
        if name == 'stress' and w.state:
            for a in e['args'][6:8]:
                l = I.lv(a, st, fr)
                state.append([I.load(st, (l[0], l[1] + (('f', k[0]),)), ELEMSTATE[k[0]]) for k in KINDS])
            for x in state[0]:
                key += grab(I, st, x)
        w.log.append((name, o, tuple(key)))
        put(I, st, vs[out], w.val(name, key, n))
        for k, x in zip(KINDS, state[1] if state else ()):
            put(I, st, x, w.val('state.' + k[0], key, k[2]))
        return T.VOID
    return go


def hooks(w, fields, outputs=''):
    k = lambda v: (lambda I, e, st, fr: v)
    num = lambda I, e, st, fr: T.to_num(I.rv(e['args'][0], st, fr)).as_int()

    def init(I, e, st, fr):
        loc = I.lv(e['obj'], st, fr)
        par = I.rv(e['args'][0], st, fr)
        n = T.to_num(I.rv(e['args'][1], st, fr))
        b = T.vstr(par).strip('"').split('.')[-1]
        w.log.append(('block', b, n))
        for f, v in (('element_device_', T.ptr(('elem.' + b, (('&',),)))), ('element_', T.ptr(('elem.' + b, (('&',),)))), ('material_device_', T.ptr(('mat.' + b, (('&',),)))), ('material_', T.ptr(('mat.' + b, (('&',),))))):
            I.put(st, (loc[0], loc[1] + (('f', f),)), v)
        return T.VOID

    def reduction(I, e, st, fr):
        n = T.to_num(I.rv(e['args'][0], st, fr)).as_int()
        v = I.rv(e['args'][1], st, fr)
        if isinstance(v, Val) and v.tag == 'vw':
            ls = cells_of(v)
        else:
            ls = [I.index(v, Poly.const(i), None) for i in range(n * NNODE)]
        x = [T.to_num(I.load(st, l, 'double')) for l in ls]
        w.log.append(('reduce', n, len(ls)))
        for l, y in zip(ls, w.val('red', [Poly.const(n)] + x, len(ls))):
            I.store(st, l, y)
        return T.VOID

    def crit(I, e, st, fr):
        o = I.lv(e['obj'], st, fr)
        v = [I.rv(a, st, fr) for a in e['args']]
        d = I.load(st, (o[0], o[1] + (('f', 'material_device_'),)), 'double *')
        xs = []
        for a in v[:2]:
            l = a.a[0]
            p = I.load(st, (l[0], l[1] + (('f', 'data_'),)), 'double *')
            xs.append(str(p.a[0][0]).split('~')[-1])
        c = T.to_num(I.load(st, I.index(v[3], ZERO, None), 'int'))
        w.log.append(('crit', str(d.a[0][0]), tuple(xs), T.to_num(v[2]), c))
        return Poly.sym('dt.' + str(d.a[0][0]))

    def conn(I, e, st, fr):
        return T.ptr(('conn.%d' % num(I, e, st, fr), (('i', ZERO),)))
    pb = T.ptr(('vc', (('&',),)))
    h = {NS + 'DataManager::GetMesh': k(Val('obj', ('mesh', ()))), NS + 'DataManager::GetParser': k(Val('obj', ('parser', ()))), NS + 'DataManager::GetFieldIDs': k(Val('obj', ('fids', ()))),
         NS + 'DataManager::GetVectorCommunicator': k(pb), NS + 'DataManager::GetBlockMaterialInterfaceFactory': k(T.ptr(('new~bmif', (('&',),)))),
         NS + 'DataManager::GetExodusOutput': k(T.ptr(('exo', (('&',),)))),
         NS + 'GenesisMesh::GetNumNodes': k(Poly.const(NNODE)), NS + 'GenesisMesh::GetNumBlocks': k(Poly.const(len(CONN))), NS + 'GenesisMesh::GetBlockIds': k(Val('obj', ('blockids', ()))),
         NS + 'GenesisMesh::GetNumElementsInBlock': lambda I, e, st, fr: Poly.const(len(CONN[num(I, e, st, fr)])), NS + 'GenesisMesh::GetNumNodesPerElement': k(Poly.const(8)),
         NS + 'GenesisMesh::GetConnectivity': conn,
         NS + 'Parser::GetModelMaterialParameters': lambda I, e, st, fr: T.strv('par.%d' % num(I, e, st, fr)), NS + 'Parser::GetOutputFieldString': k(T.strv(outputs)),
         NS + 'Parser::TimeIntegrationScheme': k(T.strv('explicit')),
         NK + 'Block::Initialize': init, NS + 'BlockBase::GetDensity': lambda I, e, st, fr: Poly.sym('rho.' + str(I.load(st, (lambda l: (l[0], l[1] + (('f', 'material_device_'),)))(I.lv(e['obj'], st, fr)), 'double *').a[0][0])),
         NS + 'BlockBase::ComputeCriticalTimeStep': crit,
         NS + 'Material::NumStateVariables': k(Poly.const(w.state)), NS + 'Element::NumIntegrationPointsPerElement': k(Poly.const(NIP)),
         NS + 'VectorCommunicator::VectorReduction': reduction,
         NS + 'Element::ComputeLumpedMass': kernel(w, 'mass', [1], 2, 8, [0]),
         NS + 'Element::ComputeDeformationGradients': kernel(w, 'defgrad', [0, 1], 2, 72),
         NS + 'Element::ComputeNodalForces': kernel(w, 'force', [0, 1, 2], 3, 24),
         NS + 'Element::ComputeVolume': kernel(w, 'volume', [0, 1], 2, 1),
         NS + 'Element::ComputeVolumeAverageSymTensor': kernel(w, 'avs', [0, 1, 2], 3, 6),
         NS + 'Element::ComputeVolumeAverageFullTensor': kernel(w, 'avf', [0, 1, 2], 3, 9),
         NS + 'Material::GetStress': kernel(w, 'stress', [2, 3, 4], 5, 6, [0, 1]),
         NS + 'DataManager::WriteOutput': k(T.VOID)}
    return h


def base_mem():
    m = vecmem('blockids', [Poly.const(b) for b in CONN])
    for b, els in CONN.items():
        for i, n in enumerate([n for el in els for n in el]):
            m[('conn.%d' % b, (('i', Poly.const(i)),))] = Poly.const(n)
    m[('new~bmif', (('f', '#type'),))] = T.strv(NK + 'BlockMaterialInterfaceFactory')
    return m


NODAL = [('lumped_mass', 'SCALAR'), ('reference_coordinate', 'VECTOR'), ('displacement', 'VECTOR'), ('velocity', 'VECTOR'), ('acceleration', 'VECTOR'),
         ('internal_force', 'VECTOR'), ('external_force', 'VECTOR'), ('contact_force', 'VECTOR')]
FID = {'reference_coordinate': 'reference_coordinates'}


class Model(Chain):
    def __init__(self, P, R, w, outputs=''):
        super().__init__(P, MD, R, machine=views.Interp, keep=())
        self.w = w
        self.kw['intr'] = hooks(w, None, outputs)
        self.mem.update(base_mem())
        self.mem[('this', (('f', '#type'),))] = T.strv(MD)
        self.races, self.odd = [], []
        self.R = R
        self.call('ModelData', [], n=0)

    def call(self, name, args=None, mem=None, n=None, pred=None, **kw):
        f = self.P.fn(name if '::' in name else self.cls + '::' + name, n, pred)
        self.R.used(f)
        m = dict(self.mem)
        m.update(mem or {})
        k = dict(self.kw)
        k.update(kw)
        Model.seq = getattr(Model, 'seq', 0) + 1000
        r = Run0(self.P, f, args, m, Model.seq, **k)
        self.mem = dict(r.st.mem)
        self.races += [(name,) + x for x in r.I.races]
        self.odd += [(name, t) for t in r.trace if t.kind in ('oob', 'shape')]
        self.last = r
        return r


class Run0(Run):
    def __init__(self, P, fn, args, mem, seq, **kw):
        self.I = kw.pop('machine')(P, **kw)
        self.I.nview = self.I.ntmp = self.I.nframe = seq      # storage made by successive calls stays distinct
        self.fn = fn
        self.ret, self.st = self.I.run(fn, args, None, mem)
        self.dead = self.st is None
        if self.dead:
            self.st = interp.State({}, ())
        self.trace = self.I.trace



def run(P, R):
    R.rule('field', 'nodal fields get distinct identifiers and storage, are found again by identifier and label, and the views given to the integrator address the stored values', 100)
    R.rule('block', 'every block is created with its own parameters, element count, kinematic identity and zero stress at both states', 14)
    R.rule('mass', 'the lumped mass of a node is the reduced sum of the masses its elements give it, and the time step is the smallest of the blocks', 15)
    R.rule('force', 'internal force: deformation gradient and stress of every integration point from its own element and block, nodal sums reduced over ranks', 120)
    R.rule('state', 'accepting a step copies the new state of every block to the old one and changes nothing else', 10)
    R.rule('output', 'every output label of every block carries the component it names', 100)
    R.rule('setup', 'the data manager registers the fields of the scheme for all nodes, and hands the node identifiers, sets and conditions of this mesh and deck to the communicator and the conditions', 30)
    R.rule('gather', 'gather reads and scatter adds at the nodes of the element connectivity', 8)
    R.rule('race', 'no two iterations of a parallel loop write one cell unless both write it atomically', 4)
    R.rule('bounds', 'no view is indexed outside its extents and no copy joins views of different shape', 4)
    for o in OUTS:
        R.guard('field', 'model data life cycle, output "%s"' % o, life, P, R, o)
    for d in (2, 3):
        for sch in ('explicit', 'quasistatic'):
            R.guard('setup', 'data manager, %dD, %s' % (d, sch), manager, P, R, d, sch)
    R.guard('state', 'model data life cycle, materials with state', life, P, R, OUTS[2], 3)
    R.guard('gather', 'gather and scatter', gather, P, R)
    for nm in STATES:
        R.guard('gather', 'state of the materials: ' + nm, states, P, R, nm)
    R.guard('gather', 'elements of a block', element, P, R, 'gather', 1)
    R.guard('field', 'conditions', glue, P, R, 'field')


def chk(R, rule, inst, wh, cond, msg):
    R.check(bool(cond), rule, inst, wh, msg)


def life(P, R, OUT, state=0):
    w = World(state)
    for x in P.records.values():
        if x['q'] == NS + 'Material::DeviceElemState':
            ELEMSTATE.update({g['n']: g['t'] for g in x['fields']})
    M = Model(P, R, w, OUT)
    wh = where(P.fn(MD + '::AllocateNodeData'), P)
    ids, view, dview = {}, {}, {}
    M.view = view
    for lab, ln in NODAL:
        r = M.call('AllocateNodeData', [enum(P, ln), T.strv(lab), Poly.const(NNODE)])
        ids[lab] = T.to_num(r.ret)
        M.mem[('fids', (('f', FID.get(lab, lab)),))] = ids[lab]
    n = len(NODAL)
    chk(R, 'field', 'identifiers are distinct', wh, len({i.as_int() for i in ids.values()}) == n and all(i.as_int() is not None for i in ids.values()), 'identifiers %s' % ids)
    for lab, ln in NODAL:
        k = 'Vector' if ln == 'VECTOR' else 'Scalar'
        shape = (NNODE, 3) if ln == 'VECTOR' else (NNODE,)
        for side, d in (('Host', view), ('Device', dview)):
            r = M.call('Get%s%sNodeData' % (side, k), [ids[lab]])
            d[lab] = r.ret
            chk(R, 'field', '%s view of %s has the extents of the field' % (side, lab), wh, tuple(x.as_int() for x in r.ret.a[3]) == shape, 'extents %s' % (r.ret.a[3],))
        chk(R, 'field', 'host and device view of %s are one field' % lab, wh, view[lab].a == dview[lab].a, '%s and %s' % (view[lab].a[0], dview[lab].a[0]))
        r = M.call(MD + '::GetFieldId', [T.strv(lab)])
        chk(R, 'field', 'label %s finds its field' % lab, where(r.fn, P), T.to_num(r.ret) == ids[lab], 'label %s gives identifier %s, allocated as %s' % (lab, r.ret, ids[lab]))
        viewify(P, R, M, lab, ids[lab], view[lab], k)
    chk(R, 'field', 'storage is distinct', wh, len({v.a[0] for v in view.values()}) == n, 'two fields share storage')
    for lab in (('Scalar', 'SCALAR'), ('Vector', 'VECTOR')):
        r = M.call('Get%sNodeDataLabels' % lab[0])
        got = r.ret
        lst = strvec(r, got.a[0][0], got.a[0][1]) if isinstance(got, Val) and got.tag == 'obj' else None
        want = sorted(l for l, k in NODAL if k == lab[1])
        chk(R, 'field', 'labels of the %s fields' % lab[0].lower(), where(r.fn, P), lst is not None and sorted(lst) == want, 'labels %s, fields %s' % (lst, want))
    for lab in ('reference_coordinate',):
        cm = {}
        for k, ax in enumerate('XYZ'):
            for i in range(NNODE):
                cm[('co' + ax, (('i', Poly.const(i)),))] = Poly.sym('R%d.%s' % (i, ax.lower()))
        ci = dict(M.kw['intr'])
        for ax in 'XYZ':
            ci[NS + 'GenesisMesh::GetCoordinates' + ax] = (lambda a: lambda I, e, st, fr: T.ptr(('co' + a, (('i', ZERO),))))(ax)
        cm[('this', (('f', 'dim_'),))] = Poly.const(3)
        r = M.call(NS + 'ModelDataBase::SetReferenceCoordinates', [Val('obj', ('mesh', ()))], mem=cm, intr=ci)
        for i, l in enumerate(cells_of(view[lab])):
            want = Poly.sym('R%d.%s' % (i // 3, 'xyz'[i % 3]))
            g = T.to_num(r.I.load(r.st, l, 'double'))
            chk(R, 'field', 'reference coordinate %d of node %d' % (i % 3, i // 3), where(r.fn, P), g == want, 'stored %s, mesh has %s' % (g, want))
    X = {l: [Poly.sym('%s.%d' % (l, i)) for i in range(NNODE * (3 if k == 'VECTOR' else 1))] for l, k in NODAL}
    X['reference_coordinate'] = [Poly.sym('R%d.%s' % (i // 3, 'xyz'[i % 3])) for i in range(3 * NNODE)]
    for l, k in NODAL:
        if l == 'reference_coordinate':
            continue
        for c_, v in zip(cells_of(view[l]), X[l]):
            M.mem[c_] = v
    blocks(P, R, M, w, ids, view, X, OUT)


def viewify(P, R, M, lab, i, v, k):
    r = M.call(MD + '::Get%sNodeData' % k, [i])
    o = r.ret
    ld = lambda *p: r.I.load(r.st, (o.a[0][0], o.a[0][1] + p), 'int')
    d = r.I.load(r.st, (o.a[0][0], o.a[0][1] + (('f', 'data_'),)), 'double *')
    wh = where(r.fn, P)
    chk(R, 'field', 'the values of %s given to the integrator are the stored ones' % lab, wh, d.tag == 'ptr' and d.a[0] == (v.a[0], (('i', v.a[1]),)), 'data pointer %s, stored in %s' % (T.vstr(d), v.a[0]))
    for q in range(len(v.a[3])):
        for f, want in (('len_', v.a[3][q]), ('stride_', v.a[2][q])):
            g = T.to_num(ld(('f', f), ('i', Poly.const(q))))
            chk(R, 'field', '%s[%d] of %s' % (f, q, lab), wh, g == want, '%s, field has %s' % (g, want))


DM = Val('obj', ('dm', ()))


def arr(M, w):
    """current content of a view"""
    return [T.to_num(M.last.I.load(M.last.st, l, 'double')) for l in cells_of(w)]


def ipview(M, b, kind, fid, step):
    v = M.call('GetDevice%sTensorIntegrationPointData' % kind, [Poly.const(b), fid, step]).ret
    return v


def el(x, b, e, n=3):
    """values of nodal field x at the nodes of element e, node by node"""
    return [x[n * i + k] for i in CONN[b][e] for k in range(n)]


def same(R, rule, inst, wh, got, want, what='values'):
    bad = [k for k in range(max(len(got), len(want))) if k >= len(got) or k >= len(want) or got[k] != want[k]]
    chk(R, rule, inst, wh, not bad, '%s: %d of %d differ, first at %s: %s where %s is required' % (
        what, len(bad), len(want), bad[:1], T.vstr(got[bad[0]])[:160] if bad and bad[0] < len(got) else '-', T.vstr(want[bad[0]])[:160] if bad and bad[0] < len(want) else '-'))


def blocks(P, R, M, w, ids, view, X, OUT):
    n, np1 = enum(P, 'STEP_N'), enum(P, 'STEP_NP1')
    r = M.call('InitializeBlocks', [DM, Val('obj', ('mf', ()))])
    wh = where(r.fn, P)
    got = sorted((b, k.as_int()) for t, b, k in [x for x in w.log if x[0] == 'block'])
    chk(R, 'block', 'blocks are created with their own parameters and element counts', wh, got == sorted((str(b), len(e)) for b, e in CONN.items()), 'created %s' % got)
    f = {k: T.to_num(r.I.load(r.st, ('fids', (('f', k),)), 'int')) for k in ('deformation_gradient', 'stress', 'unrotated_stress')}
    sv, fv = {}, {}
    for b in CONN:
        ne = len(CONN[b])
        for s_, sn in ((n, 'old'), (np1, 'new')):
            fv[b, sn] = ipview(M, b, 'Full', f['deformation_gradient'], s_)
            sv[b, sn] = ipview(M, b, 'Sym', f['stress'], s_)
            for k, v, m, init in (('deformation gradient', fv[b, sn], 9, [ONE] * 3 + [ZERO] * 6), ('stress', sv[b, sn], 6, [ZERO] * 6)):
                chk(R, 'block', '%s %s of block %d has one tensor per point' % (sn, k, b), wh, [x.as_int() for x in v.a[3]] == [ne, NIP, m], 'extents %s' % (v.a[3],))
                same(R, 'block', 'initial %s %s of block %d' % (sn, k, b), wh, arr(M, v), init * (ne * NIP))
    tv, told = {}, {}
    for b in CONN if w.state else ():
        for k, acc, m in KINDS:
            fid = T.to_num(r.I.load(r.st, ('fids', (('f', 'state_' + k),)), 'int'))
            for s_, sn in ((n, 'old'), (np1, 'new')):
                v = tv[b, k, sn] = M.call('GetDevice%sIntegrationPointData' % acc, [Poly.const(b), fid, s_]).ret
                chk(R, 'block', '%s state (%s) of block %d has its entries at every point' % (sn, k, b), wh, [x.as_int() for x in v.a[3]] == [len(CONN[b]), NIP, m], 'extents %s' % (v.a[3],))
                same(R, 'block', 'initial %s state (%s) of block %d' % (sn, k, b), wh, arr(M, v), [ZERO] * (m * len(CONN[b]) * NIP))
    allv = [v.a[0] for v in list(sv.values()) + list(fv.values()) + list(tv.values())]
    chk(R, 'block', 'states and blocks do not share storage', wh, len(set(allv)) == len(allv) and not set(allv) & {v.a[0] for v in view.values()}, 'two tensor fields share storage')
    # generic state
    old = {}
    for b in CONN:
        for k, vs, m in (('F', fv, 9), ('S', sv, 6)):
            for sn in ('old', 'new'):
                old[b, k, sn] = [Poly.sym('%s%s%d.%d' % (k, sn, b, i)) for i in range(len(CONN[b]) * NIP * m)]
                for l, x in zip(cells_of(vs[b, sn]), old[b, k, sn]):
                    M.mem[l] = x
    for (b, k, sn), v in tv.items():
        told[b, k, sn] = [Poly.sym('%s.%s%d.%d' % (k, sn, b, i)) for i in range(len(cells_of(v)))]
        for l, x in zip(cells_of(v), told[b, k, sn]):
            M.mem[l] = x
    mass(P, R, M, w, ids, view, X)
    for l, x in zip(cells_of(view['lumped_mass']), X['lumped_mass']):
        M.mem[l] = x
    Xr, u = X['reference_coordinate'], X['displacement']
    start_output(P, R, M, OUT)
    for nm in ('Velocity', 'Displacement'):
        r = M.call('UpdateWithNew' + nm, [DM, Poly.sym('dt')])
        for l, _ in NODAL:
            same(R, 'field', '%s holds its values after the update of the %s' % (l, nm.lower()), where(r.fn, P), arr(M, view[l]), X[l])
    # two evaluations: the second must not see what the first left behind
    for rep in (0, 1):
        if rep:
            u = [Poly.sym('u2.%d' % i) for i in range(3 * NNODE)]
            for l, x in zip(cells_of(view['displacement']), u):
                M.mem[l] = x
        t0, t1 = Poly.sym('t0'), Poly.sym('t1')
        k0 = len(w.log)
        r = M.call('ComputeInternalForce', [DM, t0, t1, FALSE, Val('obj', ('nodisp', ())), Val('obj', ('noforce', ()))])
        wh = where(r.fn, P)
        tag = ', second evaluation' if rep else ''
        acc = [ZERO] * (3 * NNODE)
        news, Te = {}, {}
        for b, els in CONN.items():
            F, S = [], []
            for e in range(len(els)):
                Fe = w.val('defgrad', ['elem.%d' % b] + el(Xr, b, e) + el(u, b, e), 72)
                F += Fe
                Se = []
                for q in range(NIP):
                    o = (e * NIP + q)
                    key = ['mat.%d' % b, t0, t1] + old[b, 'F', 'old'][9 * o:9 * o + 9] + Fe[9 * q:9 * q + 9] + old[b, 'S', 'old'][6 * o:6 * o + 6]
                    for k, _, m in KINDS if tv else ():
                        key += told[b, k, 'old'][m * o:m * o + m]
                    Se += w.val('stress', key, 6)
                    for k, _, m in KINDS if tv else ():
                        Te.setdefault((b, k), []).extend(w.val('state.' + k, key, m))
                S += Se
                fe = w.val('force', ['elem.%d' % b] + el(Xr, b, e) + el(u, b, e) + Se, 24)
                for a, i in enumerate(els[e]):
                    for c_ in range(3):
                        acc[3 * i + c_] = acc[3 * i + c_] + fe[3 * a + c_]
            news[b] = (F, S)
            for nm, vs, want in (('deformation gradient', fv, F), ('stress', sv, S)):
                g = arr(M, vs[b, 'new'])
                m = len(want) // (len(els) * NIP)
                for e in range(len(els)):
                    for q in range(NIP):
                        o = m * (e * NIP + q)
                        same(R, 'force', '%s of block %d, element %d, point %d%s' % (nm, b, e, q, tag), wh, g[o:o + m], want[o:o + m])
                same(R, 'force', 'old %s of block %d is kept%s' % (nm, b, tag), wh, arr(M, vs[b, 'old']), old[b, 'F' if m == 9 else 'S', 'old'])
        for (b, k), want in Te.items():
            same(R, 'force', 'new state (%s) of block %d%s' % (k, b, tag), wh, arr(M, tv[b, k, 'new']), want)
            same(R, 'force', 'old state (%s) of block %d is kept%s' % (k, b, tag), wh, arr(M, tv[b, k, 'old']), told[b, k, 'old'])
        red = [x for x in w.log[k0:] if x[0] == 'reduce']
        chk(R, 'force', 'the force is reduced over ranks once, with three components%s' % tag, wh, [(x[1], x[2]) for x in red] == [(3, 3 * NNODE)], 'reductions %s' % [(x[1], x[2]) for x in red])
        want = w.val('red', [Poly.const(3)] + acc, 3 * NNODE)
        g = arr(M, view['internal_force'])
        for i in range(NNODE):
            same(R, 'force', 'internal force of node %d%s' % (i, tag), wh, g[3 * i:3 * i + 3], want[3 * i:3 * i + 3])
        for l in ('reference_coordinate', 'velocity', 'acceleration', 'external_force', 'contact_force', 'lumped_mass'):
            same(R, 'force', '%s is left alone%s' % (l, tag), wh, arr(M, view[l]), X[l])
        same(R, 'force', 'displacement is left alone%s' % tag, wh, arr(M, view['displacement']), u)
    X = dict(X, displacement=u, internal_force=g)
    output(P, R, M, w, X, news)
    r = M.call('UpdateStates', [DM])
    wh = where(r.fn, P)
    for b in CONN:
        for nm, vs, want in (('deformation gradient', fv, news[b][0]), ('stress', sv, news[b][1])):
            same(R, 'state', 'old %s of block %d becomes the new one' % (nm, b), wh, arr(M, vs[b, 'old']), want)
            same(R, 'state', 'new %s of block %d is kept' % (nm, b), wh, arr(M, vs[b, 'new']), want)
    for (b, k), want in Te.items():
        for sn in ('old', 'new'):
            same(R, 'state', '%s state (%s) of block %d after the update' % (sn, k, b), wh, arr(M, tv[b, k, sn]), want)
    for l, _ in NODAL:
        same(R, 'state', '%s is left alone by the update' % l, wh, arr(M, view[l]), X[l])
    hygiene(P, R, M, 'life cycle of the model data')


def mass(P, R, M, w, ids, view, X):
    k0 = len(w.log)
    r = M.call('ComputeLumpedMass', [DM])
    wh = where(r.fn, P)
    acc = [ZERO] * NNODE
    for b, els in CONN.items():
        for e in range(len(els)):
            me = w.val('mass', ['elem.%d' % b, Poly.sym('rho.mat.%d' % b)] + el(X['reference_coordinate'], b, e), 8)
            for a, i in enumerate(els[e]):
                acc[i] = acc[i] + me[a]
    want = w.val('red', [ONE] + acc, NNODE)
    g = arr(M, view['lumped_mass'])
    for i in range(NNODE):
        same(R, 'mass', 'lumped mass of node %d' % i, wh, g[i:i + 1], want[i:i + 1])
    red = [x for x in w.log[k0:] if x[0] == 'reduce']
    chk(R, 'mass', 'the mass is reduced over ranks once, as a scalar', wh, [(x[1], x[2]) for x in red] == [(1, NNODE)], 'reductions %s' % [(x[1], x[2]) for x in red])
    cr = sorted(x[1:] for x in w.log[k0:] if x[0] == 'crit')
    wantc = sorted(('mat.%d' % b, ('reference_coordinate', 'displacement'), Poly.const(len(els)), Poly.const(els[0][0])) for b, els in CONN.items())
    chk(R, 'mass', 'every block estimates its time step from its own elements', wh, [tuple(map(str, x)) for x in cr] == [tuple(map(str, x)) for x in wantc], 'estimates asked %s' % cr)
    t = T.to_num(r.I.load(r.st, ('this', (('f', 'critical_time_step_'),)), 'double'))
    a, b_ = [Poly.sym('dt.mat.%d' % b) for b in CONN]
    eq(R, 'mass', 'critical time step', wh, t, T.to_num(T.ite(T.b_gt0(b_ - a), a, b_)))
    for l, k in NODAL:
        if l != 'lumped_mass':
            same(R, 'mass', '%s is left alone by the mass' % l, wh, arr(M, view[l]), X[l])


STATES = {'no state': (0, ()), 'scalars': (2, ('scalar',)), 'vectors and tensors': (5, ('vec3D', 'full_tensor')), 'symmetric tensors': (1, ('sym_tensor',)),
          'all kinds': (9, ('scalar', 'vec3D', 'sym_tensor', 'full_tensor')), 'state of other blocks only': (0, ('scalar', 'vec3D', 'sym_tensor', 'full_tensor'))}


def states(P, R, nm):
    """every material point is handed its own old and new data, of exactly the kinds there are"""
    nsv, kinds = STATES[nm]
    q = NK + 'BlockMaterialInterface'
    fc, f = P.fn(q + '::BlockMaterialInterface'), P.fn(q + '::ComputeStress')
    R.used(fc)
    R.used(f)
    wh = where(f, P)
    blocks = [(7, 2, 8), (3, 1, 2)]      # identifier, elements, points
    ids = {'deformation_gradient': 11, 'stress': 12, 'scalar': 4, 'vec3D': 0, 'sym_tensor': 6, 'full_tensor': 9}
    mem = {('arg2', (('f', k if k not in STATES['all kinds'][1] else 'state_' + k),)): Poly.const(v if k not in STATES['all kinds'][1] or k in kinds else -1) for k, v in ids.items()}
    mem[('arg3', (('f', '#size'),))] = Poly.const(len(blocks))
    for i, (b, n, k) in enumerate(blocks):
        l = ('i', Poly.const(i))
        mem[('arg3', (l, ('f', 'id')))] = Poly.const(b)
        mem[('arg3', (l, ('f', 'num_elems')))] = Poly.const(n)
        mem[('arg3', (l, ('f', 'num_points_per_elem')))] = Poly.const(k)
        mem[('arg3', (l, ('f', 'material_device')))] = T.ptr(('mat%d' % b, (('&',),)))
        mem[('mat%d' % b, (('f', '#type'),))] = T.strv(NS + 'Material')
    mem[('new~md', (('f', '#type'),))] = T.strv(NK + 'ModelData')
    md = T.ptr(('new~md', (('&',),)))
    calls = []

    def field(I, e, st, fr):
        a = [T.to_num(I.rv(x, st, fr)).as_int() for x in e['args'][:2]] + [T.to_num(I.rv(e['args'][2], st, fr)).as_int()]
        d = [x for x in blocks if x[0] == a[0]]
        if not d:
            raise facts.Violated('asks for the data of block %s' % a[0], wh)
        return views.mk('data.%s.%s.%s' % tuple(a), e['t'], [Poly.const(d[0][1]), Poly.const(d[0][2])])

    def stress(I, e, st, fr):
        if len(e['args']) < 8:
            return NotImplemented
        o = [objid(I, e, st, fr)] + [T.to_num(I.rv(x, st, fr)) for x in e['args'][:2]]
        for x in e['args'][2:6]:
            o.append(tag(I.rv(x, st, fr)))
        for x in e['args'][6:8]:
            l = I.lv(x, st, fr)
            cls = [x for x in P.records.values() if x['q'] == NS + 'Material::DeviceElemState'][0]
            o.append({g['n']: tag(I.load(st, (l[0], l[1] + (('f', g['n']),)), g['t'])) for g in cls['fields']})
        calls.append(o)
        return T.VOID

    def tag(v):
        if not (isinstance(v, Val) and v.tag == 'vw') or v.a[0] == 'noview' or any(x == ZERO for x in v.a[3]):
            return None
        return (v.a[0] if isinstance(v.a[0], str) else None, T.vstr(v.a[1]))
    k = lambda v: (lambda I, e, st, fr: v)
    intr = {NK + 'ModelData::GetDevice%sIntegrationPointData' % x: field for x in ('Scalar', 'Vector', 'SymTensor', 'FullTensor')}
    intr.update({NS + 'Material::NumStateVariables': k(Poly.const(nsv)), NS + 'Material::GetStress': stress})
    mem[('this', (('f', '#type'),))] = T.strv(q)
    r = Run(P, fc, args=[None, None, None, None, md], mem=mem, machine=views.Interp)
    r = Run(P, f, args=[], mem=dict(r.st.mem), machine=views.Interp, intr=intr)
    step = {'n': enum(P, 'STEP_N').as_int(), 'np1': enum(P, 'STEP_NP1').as_int()}
    want = []
    size = {'scalar': 1, 'vec3D': 3, 'sym_tensor': 6, 'full_tensor': 9}
    for b, n, m in blocks:
        for e_ in range(n):
            for p_ in range(m):
                def t(fid, s, w):
                    return ('data.%d.%d.%d' % (b, fid, step[s]), str(w * (e_ * m + p_)))
                want.append([b, t(11, 'n', 9), t(11, 'np1', 9), t(12, 'n', 6), t(12, 'np1', 6)] + [{c_: t(ids[c_], s, size[c_]) if nsv and c_ in kinds else None for c_ in size} for s in ('n', 'np1')])
    R.check(len(calls) == len(want), 'gather', nm + ': one evaluation per point', wh, '%d evaluations for %d points' % (len(calls), len(want)))
    if len(calls) != len(want):
        return
    for c_, w in zip(calls, want):
        lab = '%s: block %d %s' % (nm, w[0], w[1][1])
        R.check('mat%d' % w[0] in c_[0], 'gather', lab + ' material', wh, 'uses %s' % c_[0])
        eq(R, 'gather', lab + ' old time', wh, c_[1], Poly.sym('arg0'))
        eq(R, 'gather', lab + ' new time', wh, c_[2], Poly.sym('arg1'))
        for x, g, h in list(zip(('old gradient', 'new gradient', 'old stress', 'new stress', 'old state', 'new state'), c_[3:], w[1:]))[:6 if nsv else 4]:
            R.check(g == h, 'gather', '%s %s' % (lab, x), wh, 'is %s, required %s' % (g, h))


def nested(r, loc):
    """list of lists of terms"""
    n = T.to_num(r.I.size_of(r.st, loc, '')).as_int()
    o = []
    for i in range(n):
        l = (loc[0], loc[1] + (('i', Poly.const(i)),))
        m = T.to_num(r.I.size_of(r.st, l, '')).as_int()
        o.append([T.to_num(r.I.load(r.st, (l[0], l[1] + (('i', Poly.const(k)),)), 'double')) for k in range(m)])
    return o


def mapped(r, loc, leaf):
    ks = r.st.mem.get((loc[0], loc[1] + (('f', '#keys'),)))
    return {T.to_num(k).as_int(): leaf((loc[0], loc[1] + (('i', k),))) for k in ks.a}


OUTS = ['velocity volume stress displacement ipt03_stress lumped_mass deformation_gradient ipt08_deformation_gradient', 'ipt01_deformation_gradient stress acceleration ipt08_stress contact_force', 'lumped_mass external_force internal_force reference_coordinate']


def names(lab):
    """component labels of one requested field"""
    k = dict(NODAL).get(lab)
    return [lab] if k == 'SCALAR' or lab == 'volume' else [lab + '_' + a for a in (XYZ if k else SYM if lab.endswith('stress') else FULL)]


def start_output(P, R, M, OUT):
    r = M.call('InitializeExodusOutput', [DM])
    wh = where(r.fn, P)
    M.nlab = strvec(r, 'this', (('f', 'output_node_component_labels_'),))
    M.elab = mapped(r, ('this', (('f', 'output_element_component_labels_'),)), lambda l: strvec(r, l[0], l[1]))
    want = [c_ for l in OUT.split() if l in dict(NODAL) for c_ in names(l)]
    chk(R, 'output', 'the requested nodal components are declared, each once', wh, sorted(M.nlab) == sorted(want), 'declared %s, requested %s' % (M.nlab, want))
    want = [c_ for l in OUT.split() if l not in dict(NODAL) for c_ in names(l)]
    for b in CONN:
        chk(R, 'output', 'the requested element components of block %d are declared, each once' % b, wh, sorted(M.elab.get(b, ())) == sorted(want), 'declared %s' % M.elab.get(b))


def output(P, R, M, w, X, news, tag=''):
    got = {}

    def write(I, e, st, fr):
        v = [I.rv(a, st, fr) for a in e['args']]
        r = type('r', (), {'I': I, 'st': st})
        loc = lambda a: a.a[0]
        got.setdefault('n', 0)
        got['n'] += 1
        got['t'] = T.to_num(v[0])
        got['node'] = nested(r, loc(v[2]))
        got['lab'] = mapped(r, loc(v[3]), lambda l: strvec(r, l[0], l[1]))
        got['elem'] = mapped(r, loc(v[4]), lambda l: nested(r, l))
        return T.VOID
    t = Poly.sym('tout')
    r = M.call('WriteExodusOutput', [DM, t], intr=dict(M.kw['intr'], **{NS + 'ExodusOutput::WriteStep': write}))
    wh = where(r.fn, P)
    chk(R, 'output', 'one step is written, with the given time' + tag, wh, got.get('n') == 1 and got['t'] == t, '%s steps, time %s' % (got.get('n'), got.get('t')))
    chk(R, 'output', 'one array per nodal label' + tag, wh, len(got['node']) == len(M.nlab), '%d arrays, %d labels' % (len(got['node']), len(M.nlab)))
    for lab, vals in zip(M.nlab, got['node']):
        f, k = (lab[:-2], 'xyz'.index(lab[-1])) if lab[-2] == '_' else (lab, None)
        want = X[f][k::3] if k is not None else X[f]
        same(R, 'output', 'nodal output %s%s' % (lab, tag), wh, vals, want)
    chk(R, 'output', 'the labels written are the ones declared' + tag, wh, got['lab'] == M.elab, 'written %s' % got['lab'])
    Xr, u = X['reference_coordinate'], X['displacement']
    for b, els in CONN.items():
        F, S = news[b]
        ne = len(els)
        chk(R, 'output', 'one array per label of block %d%s' % (b, tag), wh, len(got['elem'].get(b, ())) == len(M.elab[b]), '%d arrays' % len(got['elem'].get(b, ())))
        for lab, vals in zip(M.elab[b], got['elem'].get(b, ())):
            f, comp = (lab, None) if lab == 'volume' else lab.rsplit('_', 1)
            want = []
            for e in range(ne):
                key = ['elem.%d' % b] + el(Xr, b, e) + el(u, b, e)
                if lab == 'volume':
                    want += w.val('volume', key, 1)
                    continue
                a, m, nm = (S, 6, SYM) if f.endswith('stress') else (F, 9, FULL)
                a = a[e * NIP * m:(e + 1) * NIP * m]
                if f.startswith('ipt'):
                    want.append(a[m * (int(f[3:5]) - 1) + nm.index(comp)])
                else:
                    want.append(w.val('avs' if m == 6 else 'avf', key + a, m)[nm.index(comp)])
            same(R, 'output', 'output %s of block %d%s' % (lab, b, tag), wh, vals, want)
    for l, _ in NODAL:
        same(R, 'output', '%s is left alone by the output%s' % (l, tag), wh, arr(M, M.view[l]), X[l])


def gather(P, R):
    """the element gather and scatter on their own, for both kinds of nodal field"""
    for b, els in CONN.items():
        flat = [i for x in els for i in x]
        ne = len(els)
        for kind, m in (('Scalar', 1), ('Vector', 3)):
            for op in ('Gather', 'Scatter', 'ScatterUsing'):
                name = op + kind + 'NodeData' if op != 'ScatterUsing' else 'Scatter%sNodeDataUsingKokkosScatterView' % kind
                if op == 'ScatterUsing':
                    continue
                w = World()
                M = Model(P, R, w)
                M.call('AllocateNodeData', [enum(P, 'SCALAR'), T.strv('other'), Poly.const(NNODE)])
                fid = T.to_num(M.call('AllocateNodeData', [enum(P, kind.upper()), T.strv('field'), Poly.const(NNODE)]).ret)
                v = M.call('GetDevice%sNodeData' % kind, [fid]).ret
                x = [Poly.sym('n%d' % i) for i in range(NNODE * m)]
                for l, y in zip(cells_of(v), x):
                    M.mem[l] = y
                cw = Val('vw', 'econn', ZERO, (ONE,), (Poly.const(len(flat)),))
                for l, y in zip(cells_of(cw), flat):
                    M.mem[l] = Poly.const(y)
                gw = views.mk('gath', 'Kokkos::View<double *[8]%s>' % ('[3]' if m == 3 else ''), [Poly.const(ne)])
                g = [Poly.sym('g%d' % i) for i in range(ne * 8 * m)]
                for l, y in zip(cells_of(gw), g):
                    M.mem[l] = y
                r = M.call(name, [fid, Poly.const(ne), Poly.const(8), cw, gw])
                wh = where(r.fn, P)
                wantg = [x[m * i + k] for i in flat for k in range(m)] if op == 'Gather' else g
                wantx = list(x)
                if op != 'Gather':
                    for a, i in enumerate(flat):
                        for k in range(m):
                            wantx[m * i + k] = wantx[m * i + k] + g[m * a + k]
                same(R, 'gather', '%s: element values, %d elements' % (name, ne), wh, arr(M, gw), wantg)
                same(R, 'gather', '%s: nodal values, %d elements' % (name, ne), wh, arr(M, v), wantx)
                hygiene(P, R, M, '%s, %d elements' % (name, ne))


def hygiene(P, R, M, what):
    R.check(not M.races, 'race', what, '%s:%s' % M.races[0][1:3] if M.races else '', '%s' % (M.races[:1],))
    R.check(not M.odd, 'bounds', what, M.odd[0][1].where() if M.odd else '', 'in %s: %s' % (M.odd[0][0], T.vstr(M.odd[0][1].val)[:80]) if M.odd else '')


FIELDS = {'reference_coordinates': 'reference_coordinate', 'displacement': 'displacement', 'velocity': 'velocity', 'acceleration': 'acceleration', 'internal_force': 'internal_force', 'external_force': 'external_force', 'contact_force': 'contact_force'}


def manager(P, R, dim, scheme):
    tag = ' (%dD, %s)' % (dim, scheme)
    seen = {}
    ptr = lambda n: (lambda I, e, st, fr: T.ptr((n, (('i', ZERO),))))
    obj = lambda n: (lambda I, e, st, fr: Val('obj', (n, ())))
    k = lambda v: (lambda I, e, st, fr: v)

    def capture(name):
        def f(I, e, st, fr):
            vs = []
            for a in e['args']:
                v = I.rv(a, st, fr)
                if isinstance(v, Val) and v.tag == 'obj' and name == 'vc':
                    v = [T.to_num(I.load(st, (v.a[0][0], v.a[0][1] + (('i', Poly.const(i)),)), 'int')) for i in range(T.to_num(I.size_of(st, v.a[0], '')).as_int() or 0)]
                elif isinstance(v, Val) and v.tag == 'obj':
                    v = v.a[0]
                vs.append(v)
            seen.setdefault(name, []).append((I.rv(e['obj'], st, fr), vs))
            return T.VOID
        return f
    num = Poly.const(NNODE)
    h = {NS + 'GenesisMesh::GetDim': k(Poly.const(dim)), NS + 'GenesisMesh::GetNumNodes': k(num), NS + 'GenesisMesh::GetNodeGlobalIds': ptr('gid'),
         NS + 'GenesisMesh::GetNodeSetNames': obj('nsn'), NS + 'GenesisMesh::GetNodeSets': obj('ns'), NS + 'GenesisMesh::GetSideSetNames': obj('ssn'), NS + 'GenesisMesh::GetSideSets': obj('ss'),
         NS + 'Parser::GetBoundaryConditionStrings': obj('bcs'), NS + 'Parser::TimeIntegrationScheme': k(T.strv(scheme)), NS + 'Parser::UseTpetra': k(FALSE), NS + 'Parser::UseUQ': k(FALSE),
         NS + 'VectorCommunicator::Initialize': capture('vc'), NS + 'BoundaryConditionManager::Initialize': capture('bc')}
    for ax in 'XYZ':
        h[NS + 'GenesisMesh::GetCoordinates' + ax] = ptr('co' + ax)
    mem = {('this', (('f', 'mesh_'),)): T.ptr(('mesh', (('&',),))), ('this', (('f', 'parser_'),)): T.ptr(('parser', (('&',),))),
           ('this', (('f', 'boundary_condition_'),)): T.ptr(('new~bc', (('&',),)))}
    for i in range(NNODE):
        mem[('gid', (('i', Poly.const(i)),))] = Poly.sym('gid%d' % i)
        for ax in 'XYZ':
            mem[('co' + ax, (('i', Poly.const(i)),))] = Poly.sym('R%d.%s' % (i, ax.lower()))
    f = P.fn(NS + 'DataManager::Initialize')
    R.used(f)
    wh = where(f, P)
    r = Run0(P, f, [], mem, 0, machine=views.Interp, intr=h, opaque={NS + 'VectorCommunicator::VectorCommunicator'})
    I, st = r.I, r.st
    vc = seen.get('vc', [])
    chk(R, 'setup', 'the communicator is set up once with the identifiers of all nodes' + tag, wh, len(vc) == 1 and len(vc[0][1]) == 1 and vc[0][1][0] == [Poly.sym('gid%d' % i) for i in range(NNODE)], '%s' % (vc,))
    v = st.mem.get(('this', (('f', 'vector_communicator_'),)))
    made = st.mem.get((v.a[0][0], ())) if isinstance(v, Val) and v.tag == 'ptr' else None
    chk(R, 'setup', 'the communicator is made for the dimension and nodes of the mesh' + tag, wh, made is not None and T.vstr(made).startswith('make:nimble::VectorCommunicator(%d, %d,' % (dim, NNODE)), 'made with %s' % (T.vstr(made)[:80] if made is not None else None))
    bc = seen.get('bc', [])
    want = [(x, ()) for x in ('nsn', 'ns', 'ssn', 'ss', 'bcs')]
    chk(R, 'setup', 'the conditions get the sets of the mesh, the conditions of the deck, the dimension and the scheme' + tag, wh,
        len(bc) == 1 and bc[0][1][:5] == want and bc[0][1][5] == Poly.const(dim) and T.vstr(bc[0][1][6]).strip('"') == scheme, '%s' % ([T.vstr(x) if isinstance(x, Val) else x for x in bc[0][1]] if bc else None,))
    md = st.mem.get(('this', (('f', 'model_data_'),)))
    root = md.a[0][0] if isinstance(md, Val) and md.tag == 'ptr' else None
    chk(R, 'setup', 'the model data of the executable is created' + tag, wh, root is not None and st.mem.get((root, (('f', '#type'),))) == T.strv(MD), 'model data %s' % (T.vstr(md)[:80] if md is not None else None))
    if root is None:
        return
    chk(R, 'setup', 'the model has the dimension of the mesh' + tag, wh, T.to_num(I.load(st, (root, (('f', 'dim_'),)), 'int')) == Poly.const(dim), 'other dimension')
    fl = dict(FIELDS)
    if scheme == 'explicit':
        fl['lumped_mass'] = 'lumped_mass'
    extra = {} if scheme == 'explicit' else {'trial_displacement': 3, 'displacement_fluctuation': 3, 'trial_internal_force': 3, 'skin_node': 1}
    keep = {a: b for a, b in st.mem.items()}

    def sub(name, args, n=None):
        f2 = P.fn(MD + '::' + name, n)
        i2 = views.Interp(P)
        i2.nview = i2.ntmp = i2.nframe = 500000
        m = {(('this' if a == root else a), p): x for (a, p), x in keep.items() if a != 'this'}
        return i2.run(f2, args, None, m) + (i2,)
    got = {}
    for fid, lab in list(fl.items()) + [(None, x) for x in extra]:
        i = sub('GetFieldId', [T.strv(lab)])[0]
        if fid:
            s_ = T.to_num(I.load(st, ('this', (('f', 'field_ids_'), ('f', fid))), 'int'))
            chk(R, 'setup', 'the stored identifier of %s is its own%s' % (lab, tag), wh, s_ == i and s_.as_int() is not None, 'identifier %s, field %s' % (s_, i))
        nc = extra.get(lab, 1 if lab == 'lumped_mass' else 3)
        w, _, i2 = sub('GetHost%sNodeData' % ('Vector' if nc == 3 else 'Scalar'), [i])
        got[lab] = w
        chk(R, 'setup', '%s has %d components for every node%s' % (lab, nc, tag), wh, isinstance(w, Val) and w.tag == 'vw' and [x.as_int() for x in w.a[3]] == ([NNODE, 3] if nc == 3 else [NNODE]), '%s' % T.vstr(w)[:80])
        if lab == 'reference_coordinate':
            for n_, l in enumerate(cells_of(w)):
                g = T.to_num(I.load(st, l, 'double'))
                want = Poly.sym('R%d.%s' % (n_ // 3, 'xyz'[n_ % 3])) if n_ % 3 < dim else ZERO
                R.check(g == want, 'setup', 'reference coordinate %d of node %d%s' % (n_ % 3, n_ // 3, tag), wh, '%s where %s is required' % (g, want))
        else:
            same(R, 'setup', '%s starts at zero%s' % (lab, tag), wh, [T.to_num(I.load(st, l, 'double')) for l in cells_of(w)], [ZERO] * (NNODE * nc))
    chk(R, 'setup', 'fields do not share storage' + tag, wh, len({w.a[0] for w in got.values()}) == len(got), 'shared storage')
