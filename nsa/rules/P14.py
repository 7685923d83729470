"""Host model data: every block of the host model is created, evaluated and written with its own data."""
from .lib import *
from ..core import facts
from .P13 import Run0, nested, mapped, same, chk

UNITS = ['nimble_model_data.cc', 'nimble_model_data_base.cc', 'nimble_data_utils.cc', 'nimble_data_manager.cc', 'nimble_block.cc', 'nimble_block_base.cc']
NS = 'nimble::'
MD = NS + 'ModelData'
# blocks out of order and sharing nodes, one without elements on this rank; node 12 belongs to no element
CONN = {7: [[3, 1, 0, 2, 7, 5, 4, 6], [1, 8, 2, 0, 5, 9, 6, 4]], 3: [[8, 9, 10, 11, 1, 5, 4, 0]], 5: []}
GID = {7: [41, 17], 3: [23], 5: []}
NNODE = 13
FULL = ['xx', 'yy', 'zz', 'xy', 'yz', 'zx', 'yx', 'zy', 'xz']
SYM = FULL[:6]
DATA = {7: ['deformation_gradient', 'stress', 'alpha'], 3: ['deformation_gradient', 'stress'], 5: ['stress', 'deformation_gradient']}
LEN = {'deformation_gradient': ('FULL_TENSOR', FULL), 'stress': ('SYMMETRIC_TENSOR', SYM), 'alpha': ('SCALAR', None)}
NIP = 2
NODAL = [('lumped_mass', 'SCALAR'), ('reference_coordinate', 'VECTOR'), ('displacement', 'VECTOR'), ('velocity', 'VECTOR'), ('internal_force', 'VECTOR'), ('external_force', 'VECTOR')]
OUTS = ['velocity stress volume ipt02_deformation_gradient_xy lumped_mass', 'displacement_y alpha ipt01_stress', 'reference_coordinate']
DM = Val('obj', ('dm', ()))


def comps(b):
    return ['ipt%02d_%s%s' % (p + 1, q, '' if s is None else '_' + s) for p in range(NIP) for q in DATA[b] for s in (LEN[q][1] or [None])]


class World:
    def __init__(self):
        self.log, self.memo, self.made = [], {}, {}

    def val(self, name, key, n):
        k = (name, tuple(map(str, key)))
        if k not in self.memo:
            i = len(self.memo)
            self.memo[k] = [Poly.sym('%s%d.%d' % (name, i, j)) for j in range(n)]
        return self.memo[k]


def hooks(w, P, OUT):
    k = lambda v: (lambda I, e, st, fr: v)
    num = lambda I, e, st, fr: T.to_num(I.rv(e['args'][0], st, fr)).as_int()

    def here(I, e, st, fr):
        v = I.rv(e['obj'], st, fr)
        return I.deref(v, st) if isinstance(v, Val) and v.tag == 'ptr' else I.lv(e['obj'], st, fr)

    def me(I, e, st, fr):
        l = here(I, e, st, fr)
        if l[0] not in w.made:
            if str(l[0]).startswith('new~'):
                raise facts.Violated('%s is called on a block that was never initialised' % e['q'], '%s:%d' % (fr.file, e.get('l', 0)))
            raise AnalysisError('block object %s is none of the blocks made' % (l[0],))
        return w.made[l[0]]

    def init(I, e, st, fr):
        l = here(I, e, st, fr)
        par = T.vstr(I.rv(e['args'][0], st, fr)).strip('"')
        f = I.rv(e['args'][1], st, fr)
        b = int(par.split('.')[-1])
        w.log.append(('make', b, l[0] in w.made, str(f.a[0][0]) if isinstance(f, Val) else '?'))
        w.made[l[0]] = b
        return T.VOID

    def array(I, e, st, fr, i, n, t='double'):
        p = I.rv(e['args'][i], st, fr)
        return [T.to_num(I.load(st, I.index(p, Poly.const(j), None), t)) for j in range(n)], [I.index(p, Poly.const(j), None) for j in range(n)]

    def vec(I, e, st, fr, i):
        v = I.rv(e['args'][i], st, fr)
        if I._noret and not (isinstance(v, Val) and v.tag in ('obj', 'ptr')):
            raise facts.Violated('%s is never reached: evaluating its arguments throws' % e['q'], '%s:%d' % (fr.file, e.get('l', 0)))
        if isinstance(v, Val) and v.tag == 'null':
            raise facts.Violated('%s is given a null array' % e['q'], '%s:%d' % (fr.file, e.get('l', 0)))
        l = v.a[0]
        n = T.to_num(I.size_of(st, l, '')).as_int()
        ls = [(l[0], l[1] + (('i', Poly.const(j)),)) for j in range(n)]
        return [I.load(st, x, 'double') for x in ls], ls

    def labels(I, e, st, fr):
        b = me(I, e, st, fr)
        l = I.lv(e['args'][0], st, fr)
        n = T.to_num(I.size_of(st, l, '')).as_int()
        w.log.append(('labels', b, n))
        for p in range(NIP):
            for q in DATA[b]:
                at = (l[0], l[1] + (('i', Poly.const(n)),))
                I.put(st, (at[0], at[1] + (('f', 'first'),)), T.strv('ipt%02d_%s' % (p + 1, q)))
                I.put(st, (at[0], at[1] + (('f', 'second'),)), enum(P, LEN[q][0]))
                n += 1
        I.put(st, (l[0], l[1] + (('f', '#size'),)), Poly.const(n))
        return T.VOID

    def start(I, e, st, fr):
        b = me(I, e, st, fr)
        ne = num(I, e, st, fr)
        ids, _ = vec(I, e, st, fr, 1)
        lab, _ = vec(I, e, st, fr, 2)
        der, _ = vec(I, e, st, fr, 3)
        _, n = vec(I, e, st, fr, 4)
        _, np1 = vec(I, e, st, fr, 5)
        f = I.rv(e['args'][6], st, fr)
        w.log.append(('start', b, ne, [T.to_num(x).as_int() for x in ids], [T.vstr(x).strip('"') for x in lab], [T.vstr(x).strip('"') for x in der], len(n), len(np1), str(f.a[0][0])))
        for x, tag in ((n, 'n'), (np1, 'np1')):
            for j, l in enumerate(x):
                I.store(st, l, Poly.sym('init.%d.%s.%d' % (b, tag, j)))
        return T.VOID

    def mass(I, e, st, fr):
        b = me(I, e, st, fr)
        ne = T.to_num(I.rv(e['args'][1], st, fr)).as_int()
        x, _ = array(I, e, st, fr, 0, 3 * NNODE)
        c, _ = array(I, e, st, fr, 2, 8 * ne, 'int')
        m, ls = array(I, e, st, fr, 3, NNODE)
        w.log.append(('mass', b, ne))
        for l, v, a in zip(ls, m, w.val('mass', [b, ne] + c + x, NNODE)):
            I.store(st, l, v + a)
        return T.VOID

    def viewed(I, e, st, fr, i):
        """the values a view of one node vector field shows, node by node"""
        v = I.rv(e['args'][i], st, fr)
        l = v.a[0]
        ld = lambda f, j: T.to_num(I.load(st, (l[0], l[1] + (('f', f), ('i', Poly.const(j)))), 'int')).as_int()
        p = I.load(st, (l[0], l[1] + (('f', 'data_'),)), 'double *')
        return [T.to_num(I.load(st, I.index(p, Poly.const(a * ld('stride_', 0) + c * ld('stride_', 1)), None), 'double')) for a in range(ld('len_', 0)) for c in range(ld('len_', 1))]

    def crit(I, e, st, fr):
        b = me(I, e, st, fr)
        ne = T.to_num(I.rv(e['args'][2], st, fr)).as_int()
        c, _ = array(I, e, st, fr, 3, 8 * ne, 'int')
        w.log.append(('crit', b, ne))
        return w.val('dt', [b, ne] + viewed(I, e, st, fr, 0) + viewed(I, e, st, fr, 1) + c, 1)[0]

    def force(I, e, st, fr):
        b = me(I, e, st, fr)
        rv = lambda i: I.rv(e['args'][i], st, fr)
        ne = T.to_num(rv(6)).as_int()
        ins = []
        for i in (0, 1, 2):
            ins += array(I, e, st, fr, i, 3 * NNODE)[0]
        ins += [T.to_num(rv(4)), T.to_num(rv(5)), ne]
        ins += array(I, e, st, fr, 7, 8 * ne, 'int')[0]
        ins += array(I, e, st, fr, 8, ne, 'int')[0]
        lab, _ = vec(I, e, st, fr, 9)
        ins += [T.vstr(x) for x in lab]
        old, _ = vec(I, e, st, fr, 10)
        ins += [T.to_num(x) for x in old]
        new, ls = vec(I, e, st, fr, 11)
        ins += [T.vstr(rv(13)), T.vstr(rv(14)) if len(e['args']) > 14 else '0']
        f, fl = array(I, e, st, fr, 3, 3 * NNODE)
        w.log.append(('force', b, ne))
        for l, v, a in zip(fl, f, w.val('force', [b] + ins, 3 * NNODE)):
            I.store(st, l, v + a)
        for l, a in zip(ls, w.val('new', [b] + ins, len(ls))):
            I.store(st, l, a)
        return T.VOID

    def derived(I, e, st, fr):
        b = me(I, e, st, fr)
        rv = lambda i: I.rv(e['args'][i], st, fr)
        ne, nd, nv = (T.to_num(rv(i)).as_int() for i in (2, 4, 6))
        ins = array(I, e, st, fr, 0, 3 * NNODE)[0] + array(I, e, st, fr, 1, 3 * NNODE)[0] + array(I, e, st, fr, 3, 8 * ne, 'int')[0]
        ins += [nd] + [T.to_num(x) for x in vec(I, e, st, fr, 5)[0]]
        o = I.lv(e['args'][7], st, fr)
        w.log.append(('derived', b, ne))
        I.put(st, (o[0], o[1] + (('f', '#size'),)), Poly.const(nv))
        for i, v in enumerate([w.val('der', [b, ne, i] + ins, ne) for i in range(nv)]):
            at = (o[0], o[1] + (('i', Poly.const(i)),))
            I.put(st, (at[0], at[1] + (('f', '#size'),)), Poly.const(ne))
            for j in range(ne):
                I.put(st, (at[0], at[1] + (('i', Poly.const(j)),)), v[j])
        return T.VOID

    def reduction(I, e, st, fr):
        n = num(I, e, st, fr)
        x, ls = array(I, e, st, fr, 1, n * NNODE)
        w.log.append(('reduce', n))
        for l, y in zip(ls, w.val('red', [n] + x, len(ls))):
            I.store(st, l, y)
        return T.VOID

    def of(root):
        return lambda I, e, st, fr: Val('obj', ('%s.%d' % (root, num(I, e, st, fr)), ()))
    return {NS + 'DataManager::GetMesh': k(Val('obj', ('mesh', ()))), NS + 'DataManager::GetParser': k(Val('obj', ('parser', ()))),
            NS + 'DataManager::GetVectorCommunicator': k(T.ptr(('vc', (('&',),)))), NS + 'DataManager::GetExodusOutput': k(T.ptr(('exo', (('&',),)))),
            NS + 'GenesisMesh::GetNumNodes': k(Poly.const(NNODE)), NS + 'GenesisMesh::GetNumBlocks': k(Poly.const(len(CONN))), NS + 'GenesisMesh::GetBlockIds': k(Val('obj', ('blockids', ()))),
            NS + 'GenesisMesh::GetNumElementsInBlock': lambda I, e, st, fr: Poly.const(len(CONN[num(I, e, st, fr)])) if e['args'] else Val('obj', ('nelem', ())),
            NS + 'GenesisMesh::GetConnectivity': lambda I, e, st, fr: T.ptr(('conn.%d' % num(I, e, st, fr), (('i', ZERO),))),
            NS + 'GenesisMesh::GetElementGlobalIdsInBlock': of('gid'),
            NS + 'Parser::GetModelMaterialParameters': lambda I, e, st, fr: T.strv('par.%d' % num(I, e, st, fr)), NS + 'Parser::GetOutputFieldString': k(T.strv(OUT)),
            NS + 'Block::Initialize': init, NS + 'Block::GetDataLabelsAndLengths': labels, NS + 'Block::InitializeElementData': start, NS + 'Block::ComputeLumpedMassMatrix': mass,
            NS + 'BlockBase::ComputeCriticalTimeStep': crit, NS + 'Block::ComputeInternalForce': force, NS + 'Block::ComputeDerivedElementData': derived,
            NS + 'VectorCommunicator::VectorReduction': reduction}


def base_mem():
    m = vecmem('blockids', [Poly.const(b) for b in CONN])
    for b, els in CONN.items():
        for i, n in enumerate([n for el in els for n in el]):
            m[('conn.%d' % b, (('i', Poly.const(i)),))] = Poly.const(n)
        m.update(vecmem('gid.%d' % b, [Poly.const(g) for g in GID[b]]))
        m[('nelem', (('i', Poly.const(b)),))] = Poly.const(len(els))
    m[('nelem', (('f', '#keys'),))] = Val('keys', *[Poly.const(b) for b in sorted(CONN)])
    m[('nelem', (('f', '#size'),))] = Poly.const(len(CONN))
    m[('factory', ())] = T.ptr(('new~mf', (('&',),)))
    m[('new~mf', (('f', '#type'),))] = T.strv(NS + 'MaterialFactory')
    return m


class Model(Chain):
    seq = 0

    def __init__(self, P, R, w, out):
        super().__init__(P, MD, R, machine=interp.Interp, keep=())
        self.w = w
        self.kw['intr'] = hooks(w, P, out)
        self.mem.update(base_mem())
        self.mem[('this', (('f', '#type'),))] = T.strv(MD)

    def call(self, name, args=None, mem=None, n=None, pred=None, **kw):
        f = self.P.fn(name if '::' in name else self.cls + '::' + name, n, pred)
        self.R.used(f)
        m = dict(self.mem)
        m.update(mem or {})
        k = dict(self.kw)
        k.update(kw)
        Model.seq += 1000
        r = Run0(self.P, f, args, m, Model.seq, **k)
        self.mem = dict(r.st.mem)
        self.last = r
        return r

    def arr(self, lab):
        return [T.to_num(self.last.I.load(self.last.st, l, 'double')) for l in self.cell[lab]]

    def state(self, acc, b):
        r = self.call(acc, [Poly.const(b)])
        l = r.ret.a[0]
        n = T.to_num(r.I.size_of(r.st, l, '')).as_int()
        return [T.to_num(r.I.load(r.st, (l[0], l[1] + (('i', Poly.const(j)),)), 'double')) for j in range(n)]


def run(P, R):
    R.rule('field', 'nodal fields are stored apart and the views given to the integrator address the stored values', 60)
    R.rule('block', 'every block is created once from its own parameters, and its state arrays, labels, element numbers and identifiers are its own', 30)
    R.rule('mass', 'the lumped mass is the reduced sum of the masses of the blocks, the time step the smallest of the blocks', 30)
    R.rule('force', 'internal force: the blocks evaluated from the fields, times and states they were given, summed from zero and reduced over ranks once', 100)
    R.rule('state', 'accepting a step makes the new state of every block the old one', 10)
    R.rule('output', 'the written step holds the nodal fields, element components and derived data its labels name', 60)
    for o in OUTS:
        R.guard('force', 'host model data, output "%s"' % o, life, P, R, o)
    R.guard('field', 'conditions', glue, P, R, 'field')
    R.guard('field', 'dimension', dimension, P, R)


def dimension(P, R):
    f = P.fn(NS + 'ModelDataBase::SetDimension')
    R.used(f)
    for d in (-1, 0, 1, 2, 3, 4, 5):
        r = Run(P, f, args=[Poly.const(d)])
        th = any(e.kind in ('throw', 'abort') and not e.guards for e in r.trace)
        if d in (2, 3):
            eq(R, 'field', 'dimension %d' % d, where(f, P), T.to_num(r.I.load(r.st, ('this', (('f', 'dim_'),)), 'int')), Poly.const(d))
        chk(R, 'field', 'dimension %d is %s' % (d, 'accepted' if d in (2, 3) else 'rejected'), where(f, P), th == (d not in (2, 3)), 'it is not')


def life(P, R, OUT):
    w = World()
    M = Model(P, R, w, OUT)
    M.mem[('this', (('f', 'dim_'),))] = Poly.const(3)
    wh = where(P.fn(MD + '::AllocateNodeData'), P)
    ids, M.cell = {}, {}
    for lab, ln in NODAL:
        r = M.call('AllocateNodeData', [enum(P, ln), T.strv(lab), Poly.const(NNODE)])
        ids[lab] = T.to_num(r.ret)
    chk(R, 'field', 'identifiers are distinct', wh, len({str(i) for i in ids.values()}) == len(ids) and all(i.as_int() is not None for i in ids.values()), 'identifiers %s' % ids)
    for lab, ln in NODAL:
        m = 3 if ln == 'VECTOR' else 1
        for by, arg in (('identifier', ids[lab]), ('label', T.strv(lab))):
            r = M.call('GetNodeData', [arg], pred=lambda f: f['params'][0]['t'].startswith('int') == (by == 'identifier'))
            cs = [r.I.index(r.ret, Poly.const(i), None) for i in range(m * NNODE)]
            if by == 'identifier':
                M.cell[lab] = cs
            chk(R, 'field', 'data of %s by %s' % (lab, by), where(r.fn, P), cs == M.cell[lab], 'addresses %s' % (cs[0],))
            r = M.call('Get%sNodeData' % ('Vector' if m == 3 else 'Scalar'), [ids[lab]])
            l = r.ret.a[0]
            ld = lambda f, j: T.to_num(r.I.load(r.st, (l[0], l[1] + (('f', f), ('i', Poly.const(j)))), 'int')).as_int()
            p = r.I.load(r.st, (l[0], l[1] + (('f', 'data_'),)), 'double *')
            n = [ld('len_', j) for j in range(2 if m == 3 else 1)]
            s = [ld('stride_', j) for j in range(2 if m == 3 else 1)]
            chk(R, 'field', 'extents of the view of %s' % lab, where(r.fn, P), n == [NNODE, 3][:len(n)], 'extents %s' % n)
            cs = [r.I.index(p, Poly.const(a * s[0] + (c * s[1] if m == 3 else 0)), None) for a in range(NNODE) for c in range(m)]
            chk(R, 'field', 'view of %s' % lab, where(r.fn, P), cs == M.cell[lab], 'the view addresses other cells')
    roots = [c for l in M.cell.values() for c in l]
    chk(R, 'field', 'storage is distinct', wh, len(set(map(str, roots))) == len(roots), 'two fields share storage')
    for lab, _ in NODAL:
        same(R, 'field', '%s starts at zero' % lab, wh, M.arr(lab), [ZERO] * len(M.cell[lab]))
    co = {}
    for k, ax in enumerate('XYZ'):
        for i in range(NNODE):
            co[('co' + ax, (('i', Poly.const(i)),))] = Poly.sym('R%d.%s' % (i, ax.lower()))
    ci = dict(M.kw['intr'])
    for ax in 'XYZ':
        ci[NS + 'GenesisMesh::GetCoordinates' + ax] = (lambda a: lambda I, e, st, fr: T.ptr(('co' + a, (('i', ZERO),))))(ax)
    r = M.call(NS + 'ModelDataBase::SetReferenceCoordinates', [Val('obj', ('mesh', ()))], mem=co, intr=ci)
    same(R, 'field', 'reference coordinates', where(r.fn, P), M.arr('reference_coordinate'), [Poly.sym('R%d.%s' % (i // 3, 'xyz'[i % 3])) for i in range(3 * NNODE)])
    blocks(P, R, M, w, OUT)


def blocks(P, R, M, w, OUT):
    r = M.call('InitializeBlocks', [DM, Val('obj', ('factory', ()))])
    wh = where(r.fn, P)
    mk = [x for x in w.log if x[0] == 'make']
    chk(R, 'block', 'every block is made once', wh, sorted(x[1] for x in mk) == sorted(CONN), 'made %s' % [x[1] for x in mk])
    chk(R, 'block', 'every block is an object of its own', wh, not any(x[2] for x in mk), 'one object serves two blocks')
    chk(R, 'block', 'the given factory makes the materials', wh, all('mf' in x[3] for x in mk), 'factories %s' % [x[3] for x in mk])
    got = mapped(r, ('this', (('f', 'blocks_'),)), lambda l: w.made.get(M.last.I.load(M.last.st, l, 'x').a[0][0]))
    chk(R, 'block', 'every block is found under its identifier', wh, got == {b: b for b in CONN}, 'blocks %s' % got)
    lb = [x for x in w.log if x[0] == 'labels']
    chk(R, 'block', 'every block declares its data once, into an empty list', wh, sorted(x[1] for x in lb) == sorted(CONN) and all(x[2] == 0 for x in lb), 'declarations %s' % lb)
    st = {x[1]: x for x in w.log if x[0] == 'start'}
    chk(R, 'block', 'every block initialises its data once', wh, sorted(x[1] for x in w.log if x[0] == 'start') == sorted(CONN), 'initialised %s' % sorted(st))
    der = {b: [] for b in CONN}
    nodal, elem = [], {b: [] for b in CONN}
    for lab in OUT.split():
        f = lab[:-2] if lab[-2:] in ('_x', '_y', '_z') else lab
        if f in dict(NODAL):
            nodal += [lab] if f != lab or dict(NODAL)[f] == 'SCALAR' else [lab + '_' + a for a in XYZ]
            continue
        for b in CONN:
            if lab == 'volume':
                der[b].append(lab)
            elif lab.startswith('ipt'):
                elem[b] += [c for c in comps(b) if c == lab] or [c for c in cplain(b, lab)]
            elif lab in DATA[b]:
                der[b] += [lab + ('_' + s if s else '') for s in (LEN[lab][1] or [''])]
    for b in CONN:
        if b not in st:
            continue
        x = st[b]
        size = len(CONN[b]) * len(comps(b))
        chk(R, 'block', 'elements of block %d' % b, wh, x[2] == len(CONN[b]), '%s elements' % x[2])
        chk(R, 'block', 'global identifiers of the elements of block %d' % b, wh, x[3] == GID[b], 'identifiers %s' % x[3])
        chk(R, 'block', 'components of block %d' % b, wh, x[4] == comps(b), 'components %s' % x[4])
        chk(R, 'block', 'derived data of block %d' % b, wh, sorted(x[5]) == sorted(der[b]), 'derived %s' % x[5])
        chk(R, 'block', 'state arrays of block %d' % b, wh, (x[6], x[7]) == (size, size), 'arrays of %d and %d entries' % (x[6], x[7]))
        chk(R, 'block', 'factory for block %d' % b, wh, 'mf' in x[8], 'factory %s' % x[8])
        for acc, tag in (('GetElementDataOld', 'n'), ('GetElementDataNew', 'np1')):
            same(R, 'block', '%s state of block %d' % (tag, b), wh, M.state(acc, b), [Poly.sym('init.%d.%s.%d' % (b, tag, j)) for j in range(size)])
    X = {l: [Poly.sym('%s.%d' % (l, i)) for i in range(NNODE * (3 if k == 'VECTOR' else 1))] for l, k in NODAL}
    X['reference_coordinate'] = M.arr('reference_coordinate')
    X['lumped_mass'] = [ZERO] * NNODE
    for l, k in NODAL:
        for c_, v in zip(M.cell[l], X[l]):
            M.mem[c_] = v
    # mass
    k0 = len(w.log)
    r = M.call('ComputeLumpedMass', [DM])
    wh = where(r.fn, P)
    log = w.log[k0:]
    acc = [ZERO] * NNODE
    dts = []
    for b, els in CONN.items():
        c = [Poly.const(i) for el in els for i in el]
        acc = [p + q for p, q in zip(acc, w.val('mass', [b, len(els)] + c + X['reference_coordinate'], NNODE))]
        dts.append(w.val('dt', [b, len(els)] + X['reference_coordinate'] + X['displacement'] + c, 1)[0])
    chk(R, 'mass', 'every block once', wh, sorted(x[1] for x in log if x[0] == 'mass') == sorted(CONN), 'blocks %s' % [x[1] for x in log if x[0] == 'mass'])
    chk(R, 'mass', 'reduced over ranks once, as a scalar, after the blocks', wh, [x[1] for x in log if x[0] == 'reduce'] == [1] and max(i for i, x in enumerate(log) if x[0] == 'mass') < [i for i, x in enumerate(log) if x[0] == 'reduce'][0], 'reductions %s' % [x for x in log if x[0] == 'reduce'])
    X['lumped_mass'] = w.val('red', [1] + acc, NNODE)
    for i in range(NNODE):
        same(R, 'mass', 'lumped mass of node %d' % i, wh, M.arr('lumped_mass')[i:i + 1], X['lumped_mass'][i:i + 1])
    t = r.I.load(r.st, ('this', (('f', 'critical_time_step_'),)), 'double')
    lo = lambda a, b: T.to_num(T.ite(T.b_gt0(b - a), a, b))
    a, b, c = dts
    eq(R, 'mass', 'critical time step', wh, T.to_num(t), lo(a, lo(b, c)))
    same_fields(R, M, X, 'mass', 'the mass', wh, ())
    # steps
    old = {b: M.state('GetElementDataOld', b) for b in CONN}
    new = {b: M.state('GetElementDataNew', b) for b in CONN}
    r = M.call('InitializeExodusOutput', [DM])
    output(P, R, M, w, X, new, nodal, elem, der, ' before the first step')
    for step, own in ((1, True), (2, False), (3, True)):
        t0, t1 = Poly.sym('t%d' % (step - 1)), Poly.sym('t%d' % step)
        if step != 1:
            X['displacement'] = [Poly.sym('displacement.%d.%d' % (step, i)) for i in range(3 * NNODE)]
            X['velocity'] = [Poly.sym('velocity.%d.%d' % (step, i)) for i in range(3 * NNODE)]
            for l in ('displacement', 'velocity'):
                for c_, v in zip(M.cell[l], X[l]):
                    M.mem[c_] = v
        r = M.call('ComputeExternalForce', [DM, t0, t1, FALSE])
        X['external_force'] = [ZERO] * (3 * NNODE)
        same(R, 'force', 'external force, step %d' % step, where(r.fn, P), M.arr('external_force'), X['external_force'])
        same_fields(R, M, X, 'force', 'the external force', where(r.fn, P), ())
        wo = T.sym_bool('isout') if hasattr(T, 'sym_bool') else (TRUE if step == 2 else FALSE)
        force(P, R, M, w, X, old, new, t0, t1, wo, own, step)
        output(P, R, M, w, X, new, nodal, elem, der, ' of step %d' % step)
        r = M.call('UpdateStates', [DM])
        for b in CONN:
            same(R, 'state', 'old state of block %d after step %d' % (b, step), where(r.fn, P), M.state('GetElementDataOld', b), new[b])
            chk(R, 'state', 'new state of block %d keeps its size, step %d' % (b, step), where(r.fn, P), len(M.state('GetElementDataNew', b)) == len(new[b]), 'another size')
        same_fields(R, M, X, 'state', 'accepting step %d' % step, where(r.fn, P), ())
        old = {b: M.state('GetElementDataOld', b) for b in CONN}
        new = {b: M.state('GetElementDataNew', b) for b in CONN}


def cplain(b, lab):
    return [c for c in comps(b) if c.rsplit('_', 1)[0] == lab]


def same_fields(R, M, X, rule, what, wh, but):
    for l, _ in NODAL:
        if l not in but:
            same(R, rule, '%s is left alone by %s' % (l, what), wh, M.arr(l), X[l])


def force(P, R, M, w, X, old, new, t0, t1, wo, own, step):
    """own: the stored displacement and internal force; otherwise trial ones of the integrator"""
    k0 = len(w.log)
    tag = ' of step %d' % step
    ids = {l: M.call('GetFieldId', [T.strv(l)]).ret for l in ('displacement', 'internal_force')}
    if own:
        u, f = (M.call('GetVectorNodeData', [ids[l]], pred=lambda f: f['params'][0]['t'].startswith('int')).ret for l in ('displacement', 'internal_force'))
        uv, fc = X['displacement'], M.cell['internal_force']
    else:
        uv = [Poly.sym('trial.%d' % i) for i in range(3 * NNODE)]
        fc = [('ftrial', (('i', Poly.const(i)),)) for i in range(3 * NNODE)]
        for i in range(3 * NNODE):
            M.mem[('utrial', (('i', Poly.const(i)),))] = uv[i]
            M.mem[fc[i]] = Poly.sym('left over %d' % i)
        o = []
        for n in ('utrial', 'ftrial'):
            M.mem[('view' + n, (('f', 'data_'),))] = T.ptr((n, (('i', ZERO),)))
            for j, (a, s) in enumerate(((NNODE, 3), (3, 1))):
                M.mem[('view' + n, (('f', 'len_'), ('i', Poly.const(j))))] = Poly.const(a)
                M.mem[('view' + n, (('f', 'stride_'), ('i', Poly.const(j))))] = Poly.const(s)
            o.append(Val('obj', ('view' + n, ())))
        u, f = o
    r = M.call('ComputeInternalForce', [DM, t0, t1, wo, u, f])
    wh = where(r.fn, P)
    log = w.log[k0:]
    acc = [ZERO] * (3 * NNODE)
    for b, els in CONN.items():
        c = [Poly.const(i) for e in els for i in e]
        ins = X['reference_coordinate'] + uv + X['velocity'] + [t0, t1, len(els)] + c + [Poly.const(g) for g in GID[b]] + ['"%s"' % l for l in comps(b)] + old[b] + [T.vstr(wo), T.vstr(FALSE)]
        acc = [p + q for p, q in zip(acc, w.val('force', [b] + ins, 3 * NNODE))]
        new[b] = w.val('new', [b] + ins, len(new[b]))
        same(R, 'force', 'new state of block %d%s' % (b, tag), wh, M.state('GetElementDataNew', b), new[b])
        same(R, 'force', 'old state of block %d is kept%s' % (b, tag), wh, M.state('GetElementDataOld', b), old[b])
    chk(R, 'force', 'every block once' + tag, wh, sorted(x[1] for x in log if x[0] == 'force') == sorted(CONN), 'blocks %s' % [x[1] for x in log if x[0] == 'force'])
    chk(R, 'force', 'reduced over ranks once, as a vector, after the blocks' + tag, wh, [x[1] for x in log if x[0] == 'reduce'] == [3] and log[-1][0] == 'reduce', 'calls %s' % log)
    got = [T.to_num(M.last.I.load(M.last.st, c, 'double')) for c in fc]
    want = w.val('red', [3] + acc, 3 * NNODE)
    for i in range(3 * NNODE):
        same(R, 'force', 'internal force %s of node %d%s' % ('xyz'[i % 3], i // 3, tag), wh, got[i:i + 1], want[i:i + 1])
    if own:
        X['internal_force'] = want
    same_fields(R, M, X, 'force', 'the internal force' + tag, wh, ())


def output(P, R, M, w, X, new, nodal, elem, der, tag):
    got = {}

    def write(I, e, st, fr):
        v = [I.rv(a, st, fr) for a in e['args']]
        r = type('r', (), {'I': I, 'st': st})
        loc = lambda a: a.a[0]
        sv = lambda l: strvec(r, l[0], l[1])
        got.setdefault('n', 0)
        got['n'] += 1
        got['t'] = T.to_num(v[0])
        got['glob'] = T.to_num(I.size_of(st, loc(v[1]), '')).as_int()
        got['node'] = nested(r, loc(v[2]))
        got['elab'] = mapped(r, loc(v[3]), sv)
        got['elem'] = mapped(r, loc(v[4]), lambda l: nested(r, l))
        got['dlab'] = mapped(r, loc(v[5]), sv)
        got['der'] = mapped(r, loc(v[6]), lambda l: nested(r, l))
        return T.VOID
    t = Poly.sym('tout')
    r = M.call('WriteExodusOutput', [DM, t], intr=dict(M.kw['intr'], **{NS + 'ExodusOutput::WriteStep': write}))
    wh = where(r.fn, P)
    chk(R, 'output', 'one step is written, with the given time' + tag, wh, got.get('n') == 1 and got['t'] == t and got['glob'] == 0, '%s steps, time %s' % (got.get('n'), got.get('t')))
    if not got:
        return
    chk(R, 'output', 'one array per nodal label' + tag, wh, len(got['node']) == len(nodal), '%d arrays, %d labels' % (len(got['node']), len(nodal)))
    for lab, vals in zip(nodal, got['node']):
        f, k = (lab[:-2], 'xyz'.index(lab[-1])) if lab[-2] == '_' else (lab, None)
        same(R, 'output', 'nodal output %s%s' % (lab, tag), wh, vals, X[f][k::3] if k is not None else X[f])
    for b, els in CONN.items():
        n = len(comps(b))
        chk(R, 'output', 'element labels of block %d%s' % (b, tag), wh, got['elab'].get(b) == elem[b], 'labels %s' % got['elab'].get(b))
        chk(R, 'output', 'one array per element label of block %d%s' % (b, tag), wh, len(got['elem'].get(b, ())) == len(elem[b]), '%d arrays' % len(got['elem'].get(b, ())))
        for lab, vals in zip(elem[b], got['elem'].get(b, ())):
            same(R, 'output', 'output %s of block %d%s' % (lab, b, tag), wh, vals, [new[b][e * n + comps(b).index(lab)] for e in range(len(els))])
        chk(R, 'output', 'derived labels of block %d%s' % (b, tag), wh, sorted(got['dlab'].get(b, ())) == sorted(der[b]), 'labels %s' % got['dlab'].get(b))
        c = [Poly.const(i) for e in els for i in e]
        ins = X['reference_coordinate'] + X['displacement'] + c + [n] + new[b]
        want = [w.val('der', [b, len(els), i] + ins, len(els)) for i in range(len(der[b]))]
        g = got['der'].get(b, ())
        chk(R, 'output', 'one array per derived label of block %d%s' % (b, tag), wh, len(g) == len(der[b]), '%d arrays' % len(g))
        for i, (a, b_) in enumerate(zip(g, want)):
            same(R, 'output', 'derived data %d of block %d%s' % (i, b, tag), wh, a, b_)
    same_fields(R, M, X, 'output', 'the output' + tag, wh, ())
