"""Contact surfaces: the command, the skin of the contact blocks, and the contact faces and nodes made from it."""
from .lib import *
from ..core import views, facts
from . import exo, P05, P10, P15, P18

UNITS = ['explicit_time_integrator.cc', 'nimble_parser.cc', 'nimble_contact_manager.cc', 'nimble_contact_entity.cc', 'nimble_genesis_mesh.cc']
CM = 'nimble::ContactManager'
CE = 'nimble::ContactEntity'
FACES = [(0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (0, 4, 7, 3), (0, 3, 2, 1), (4, 5, 6, 7)]      # Exodus order, seen from outside


def run(P, R):
    R.rule('command', 'the contact command gives the named primary and secondary blocks and the penalty, and a command that lacks a part is rejected', 10)
    R.rule('skin', 'every face of the listed blocks that belongs to one element is found once, with its outward node order, element and face number', 8)
    R.rule('partition', 'a face shared by two partitions is no contact face on either', 6)
    R.rule('entities', 'every primary face gives four triangles around its centre, every owned secondary node one node entity, with the ids, lengths, coordinates and node numbers of the mesh', 40)
    R.rule('setup', 'the integrator makes the contact surfaces from the command of the deck, before the first step, and shows them when asked', 8)
    R.guard('command', 'contact command', command, P, R)
    R.guard('setup', 'contact set-up', setup, P, R)
    R.guard('skin', 'skin', skin, P, R)
    R.guard('partition', 'partition', partition, P, R)
    R.guard('entities', 'entities', entities, P, R)


# ------------------------------------------------------------------ the command
def command(P, R):
    f = P.fn('nimble::ParseContactCommand')
    R.used(f)
    wh = where(f, P)
    good = [('primary_blocks a secondary_blocks b penalty_parameter 2.5', ['a'], ['b'], 2.5),
            ('master_blocks block_1 block_2 slave_blocks block_3 penalty_parameter 1000', ['block_1', 'block_2'], ['block_3'], 1000),
            ('primary_blocks a slave_blocks b c d penalty_parameter 3', ['a'], ['b', 'c', 'd'], 3),
            ('  master_blocks   x y   secondary_blocks\tz  penalty_parameter   0.5  ', ['x', 'y'], ['z'], 0.5)]
    for text, a, b, p in good:
        r = Run(P, f, args=[T.strv(text), None, None, None], mem={**vecmem('arg1', []), **vecmem('arg2', [])}, charptr=True, peel=True)
        R.check(not P18.stop(r) and strvec(r, 'arg1') == a and strvec(r, 'arg2') == b and r.I.load(r.st, ('arg3', ()), 'double') == c(p), 'command', text, wh,
                'gives %s, %s, %s%s' % (strvec(r, 'arg1'), strvec(r, 'arg2'), T.vstr(r.I.load(r.st, ('arg3', ()), 'double')), ' and is rejected' if P18.stop(r) else ''))
    for text in ('', 'blocks a secondary_blocks b penalty_parameter 2', 'secondary_blocks b primary_blocks a penalty_parameter 2', 'primary_blocks a b', 'primary_blocks a penalty_parameter 2',
                 'primary_blocks a secondary_blocks b', 'primary_blocks a secondary_blocks b 2.5', 'primary_blocks a secondary_blocks b penalty_parameter', 'primary_blocks a secondary_blocks b penalty_parameter ',
                 'primary_blocks a secondary_blocks b penalty_parameter large', 'primary_blocks'):
        r = Run(P, f, args=[T.strv(text), None, None, None], mem={**vecmem('arg1', []), **vecmem('arg2', [])}, charptr=True, peel=True)
        R.check(P18.stop(r), 'command', 'rejected: "%s"' % text, wh, 'accepted')


# ------------------------------------------------------------------ the integrator
BLOCKS = {'alpha': 11, 'beta': 4, 'gamma': 7}


def setup(P, R):
    f = P.fn('nimble::ExplicitTimeIntegrator::Integrate')
    R.used(f)
    wh = where(f, P)
    text = 'primary_blocks alpha beta secondary_blocks gamma penalty_parameter 2.5'
    for con, viz, nm in ((True, False, 'contact'), (True, True, 'contact shown'), (False, False, 'no contact'), (False, True, 'shown without contact')):
        w = P05.World(3, 2, con, viz)
        h = P05.hooks(w)
        log = []

        def ids(I, e, st, fr):
            a = I.lv(e['args'][0], st, fr)
            n = I.size_of(st, a, '').as_int()
            names = [I.load(st, (a[0], a[1] + (('i', Poly.const(i)),)), 'std::basic_string<char>').a[0] for i in range(n)]
            b = I.lv(e['args'][1], st, fr)
            I.drop(st, b)
            for k, v in vecmem(b[0], [Poly.const(BLOCKS[x]) for x in names if x in BLOCKS], b[1]).items():
                I.put(st, k, v)
            return T.VOID

        def vals(I, st, fr, a):
            b = I.lv(a, st, fr)
            return [T.to_num(I.load(st, (b[0], b[1] + (('i', Poly.const(i)),)), 'int')).as_int() for i in range(I.size_of(st, b, '').as_int())]

        def create(I, e, st, fr):
            log.append(('create', I.lv(e['args'][0], st, fr), I.lv(e['args'][1], st, fr), vals(I, st, fr, e['args'][2]), vals(I, st, fr, e['args'][3])))
            return T.VOID

        def force(I, e, st, fr, o=h['nimble::ContactManager::ComputeContactForce']):
            log.append(('force', T.to_num(I.rv(e['args'][1], st, fr)) if False else None))
            return o(I, e, st, fr)

        def rec(what, t=None):
            def g(I, e, st, fr):
                log.append((what,) + tuple(I.rv(a, st, fr) for a in e['args']) + (len(w.out),))
                return T.VOID
            return g

        def mesh(I, e, st, fr):
            return Val('lref', ('themesh', ()))

        def comm(I, e, st, fr):
            I.put(st, ('vcp', ()), T.ptr(('thecomm', ())))
            return Val('obj', ('vcp', ()))

        def viewname(I, e, st, fr):
            v = I.rv(e['args'][0], st, fr)
            if isinstance(v, Val) and v.tag == 'obj':
                v = I.load(st, v.a[0], 'std::basic_string<char>')
            log.append(('show', v.a[0] if isinstance(v, Val) and v.tag == 'str' else T.vstr(v)))
            return T.VOID
        h.update({'nimble::Parser::ContactString': lambda I, e, st, fr: T.strv(text), 'nimble::GenesisMesh::BlockNamesToOnProcessorBlockIds': ids, CM + '::CreateContactEntities': create,
                  CM + '::ComputeContactForce': force, CM + '::SetPenaltyParameter': rec('penalty'), CM + '::InitializeContactVisualization': viewname,
                  CM + '::ContactVisualizationWriteStep': rec('frame'), 'nimble::Parser::ContactVisualizationFileName': lambda I, e, st, fr: T.strv('cv.e'),
                  CM + '::numActiveContactFaces': lambda I, e, st, fr: ZERO, 'nimble::DataManager::GetVectorCommunicator': comm, 'nimble::IntegratorBase::Mesh': mesh})
        r = Run(P, f, intr=h, charptr=True, peel=True)
        ck = lambda cond, what, msg='differs': R.check(cond, 'setup', nm + ': ' + what, wh, msg)
        made = [(i, x) for i, x in enumerate(log) if x[0] == 'create']
        pens = [(i, x) for i, x in enumerate(log) if x[0] == 'penalty']
        first = next((i for i, x in enumerate(log) if x[0] == 'force'), len(log))
        if not con:
            ck(not log, 'no surface, no force', 'calls %s' % [x[0] for x in log][:4])
            continue
        ck(len(made) == 1 and made[0][0] < first, 'surfaces are made once, before the first step', 'made %d times' % len(made))
        for i, x in made:
            ck(x[3] == [11, 4] and x[4] == [7], 'primary and secondary blocks', 'gives %s and %s' % (x[3], x[4]))
            ck(x[1] == ('themesh', ()) and x[2] == ('thecomm', ()), 'mesh and communicator of the run', 'gives %s and %s' % (T.lstr(x[1]), T.lstr(x[2])))
        ck(bool(pens) and all(i < first for i, x in pens) and pens[-1][1][1] == c(2.5), 'penalty of the command', 'sets %s' % [T.vstr(x[1]) for _, x in pens])
        shows, frames = [x for x in log if x[0] == 'show'], [x for x in log if x[0] == 'frame']
        if viz:
            ck([x[1] for x in shows] == ['cv.out.e'], 'file of the surfaces', 'opens %s' % [x[1] for x in shows])
            ck([T.to_num(x[1]) for x in frames] == [o[0] for o in w.out], 'the surfaces are written with every output', 'writes %d frames, %d outputs' % (len(frames), len(w.out)))
        else:
            ck(not shows and not frames, 'nothing is shown', 'shows the surfaces')


    # the factory of managers
    f = P.fn('nimble::GetContactManager')
    R.used(f)
    for on in (True, False):
        h = {'nimble::DataManager::GetParser': lambda I, e, st, fr: Val('lref', ('parser', ())), 'nimble::Parser::HasContact': lambda I, e, st, fr: TRUE if on else FALSE,
             'nimble::Parser::UseVT': lambda I, e, st, fr: FALSE}
        r = Run0(P, f, [Val('obj', ('ifp', ())), None], {('ifp', ()): T.ptr(('interface', ()))}, 700000, machine=views.Interp, peel=True, intr=h)
        v = r.ret
        if isinstance(v, Val) and v.tag == 'obj':
            v = r.I.load(r.st, v.a[0], 'nimble::ContactManager *')
        R.check((isinstance(v, Val) and v.tag == 'ptr') if on else v == Val('null'), 'setup', 'contact manager of a deck %s contact' % ('with' if on else 'without'), where(f, P), 'gives %s' % T.vstr(v))


# ------------------------------------------------------------------ meshes
class Mesh(exo.File):
    """hexahedra with given nodes (numbers of the whole mesh), on one partition"""

    def __init__(self, blocks, order, gid=lambda n: 3 * n + 2):
        # blocks: {id: [(element id, [8 nodes])]}; order: local numbering of the nodes of this partition
        self.nodes_, self.b, self.gid = list(order), blocks, gid
        self.loc = {n: i for i, n in enumerate(order)}
        self.el = [e for b in blocks for e, _ in blocks[b]]
        super().__init__(blocks=[(b, 'block_%d' % b, 'HEX', len(x), 8) for b, x in blocks.items()], nodes=len(order), nodesets=[], sidesets=[],
                         node_maps=['original_global_id_map'], elem_maps=['original_global_id_map'])

    def coord(self, i, k):
        return Poly.sym('X%d.%s' % (self.nodes_[i], 'xyz'[k]))

    def idmap(self, kind, i, aux=False):
        return Poly.const(self.gid(self.nodes_[i]) if kind == 'EX_NODE_MAP' else self.el[i])

    def conn(self, b, i):
        return Poly.const(self.loc[[n for _, ns in self.b[b] for n in ns][i]] + 1)


ROT = [(0, 1, 2, 3, 4, 5, 6, 7), (4, 7, 6, 5, 0, 3, 2, 1), (3, 0, 1, 2, 7, 4, 5, 6), (1, 5, 6, 2, 0, 4, 7, 3), (2, 3, 0, 1, 6, 7, 4, 5)]


def bar(n, first=0, rots=(0, 1, 2, 3)):
    """n hexahedra in a row, each with its own local numbering"""
    at = lambda i, j, k: first + 4 * i + 2 * j + k
    out = []
    for i in range(n):
        h = [at(i, 0, 0), at(i + 1, 0, 0), at(i + 1, 1, 0), at(i, 1, 0), at(i, 0, 1), at(i + 1, 0, 1), at(i + 1, 1, 1), at(i, 1, 1)]
        out.append([h[k] for k in ROT[rots[i % len(rots)]]])
    return out


def skinof(els, drop=()):
    """{(nodes up to rotation): (element id, face)} of the faces that belong to one element"""
    cnt = {}
    for e, ns in els:
        for k, f in enumerate(FACES):
            cnt.setdefault(frozenset(ns[i] for i in f), []).append((e, k, [ns[i] for i in f]))
    return {canon(v[0][2]): v[0][:2] for s, v in cnt.items() if len(v) == 1 and s not in drop}


def canon(ns):
    k = ns.index(min(ns))
    return tuple(ns[k:] + ns[:k])


def meshmem(P, f, root):
    X, C, r = P10.read(P, None, f)
    return {(root if k[0] == 'this' else k[0], k[1]): v for k, v in C.mem.items()}


def int_(r, loc):
    v = T.to_num(r.I.load(r.st, loc, 'int'))
    return v.as_int() if isinstance(v, Poly) else None


def at(loc, *ks):
    return (loc[0], loc[1] + tuple(('i', Poly.const(k)) if isinstance(k, int) else ('f', k) for k in ks))


def table(r, root):
    """a vector of vectors of int"""
    n = r.I.size_of(r.st, (root, ()), '').as_int()
    out = []
    for i in range(n):
        m = r.I.size_of(r.st, at((root, ()), i), '').as_int()
        out.append([int_(r, at((root, ()), i, k)) for k in range(m)])
    return out


def ivec(r, root):
    n = r.I.size_of(r.st, (root, ()), '')
    n = n.as_int() if isinstance(n, Poly) else None
    return None if n is None else [int_(r, at((root, ()), i)) for i in range(n)]


# ------------------------------------------------------------------ the skin
CASES = {
    'one element': ({7: [(5, bar(1)[0])]}, [7]),
    'a row in one block': ({7: list(zip((5, 31, 2), bar(3)))}, [7]),
    'a row over two blocks': ({7: list(zip((5, 31), bar(3))), 2: [(9, bar(3)[2])]}, [7, 2]),
    'two blocks, listed in the other order': ({7: list(zip((5, 31), bar(3))), 2: [(9, bar(3)[2])]}, [2, 7]),
    'one of two blocks': ({7: list(zip((5, 31), bar(3))), 2: [(9, bar(3)[2])]}, [7]),
    'no block': ({7: [(5, bar(1)[0])]}, []),
    'separate bodies': ({7: [(5, bar(1)[0])], 3: [(6, bar(1, 20, (3,))[0])]}, [7, 3]),
}


def skin(P, R):
    f = P.fn(CM + '::SkinBlocks')
    R.used(f)
    wh = where(f, P)
    for nm, (blocks, ids) in CASES.items():
        nodes = sorted({n for x in blocks.values() for _, ns in x for n in ns}, key=lambda n: (n * 7) % 11 * 100 + n)
        m = Mesh(blocks, nodes)
        mem = meshmem(P, m, 'arg0')
        mem.update(vecmem('arg1', [Poly.const(b) for b in ids]))
        mem.update(vecmem('arg3', [ZERO]))
        mem[('arg3', (('i', ZERO), ('f', '#size')))] = Poly.const(0)
        mem.update(vecmem('arg4', [Poly.const(77)]))
        r = Run(P, f, args=[None, None, Poly.const(1000), None, None], mem=mem, peel=True)
        want = skinof([x for b in ids for x in blocks[b]])
        tb, en = table(r, 'arg3'), ivec(r, 'arg4')
        R.check(not P18.stop(r) and len(tb) == len(en or ()), 'skin', nm + ': lists', wh, 'stops, or gives %d faces and %d ids' % (len(tb), len(en or ())))
        if None in [x for t in tb for x in t] + (en or [None] * bool(tb)):
            R.check(None, 'skin', nm, wh, 'the faces are not determined')
            continue
        got = sorted((canon([nodes[x] for x in t]), i) for t, i in zip(tb, en)) if all(0 <= x < len(nodes) for t in tb for x in t) else None
        exp = sorted((k, (e + 1000) << 5 | fc << 2) for k, (e, fc) in want.items())
        R.check(got == exp, 'skin', nm, wh, 'gives %s, required %s' % ([x for x in got or () if x not in exp][:3], [x for x in exp if x not in (got or ())][:3]))
    # three elements on one face
    h = bar(2)
    third = [h[1][ROT[2][k]] for k in range(8)]
    m = Mesh({7: [(1, h[0]), (2, h[1]), (3, third)]}, list(range(12)))
    mem = meshmem(P, m, 'arg0')
    mem.update(vecmem('arg1', [Poly.const(7)]))
    mem.update(vecmem('arg3', []))
    mem.update(vecmem('arg4', []))
    r = Run(P, f, args=[None, None, Poly.const(1000), None, None], mem=mem, peel=True)
    R.check(P18.stop(r), 'skin', 'a face of three elements is an error', wh, 'accepted')


# ------------------------------------------------------------------ partitions
class World(P15.World):
    """ranks that call a method of the contact manager"""

    def start(self, r):
        kw = dict(self.kw)
        h = self.hooks(r)
        h.update(self.extra(r))
        return Run0(self.P, self.fn, self.args(r), dict(self.mems[r]), 1000 * (r + 1), intr=h, machine=type('M', (views.Interp,), {'world': self, 'rank': r}), peel=True, maxsteps=4000000)


class Run0(Run):
    def __init__(self, P, fn, args, mem, seq, **kw):
        self.I = kw.pop('machine')(P, **kw)
        self.I.nview = self.I.ntmp = self.I.nframe = seq
        self.fn = fn
        self.ret, self.st = self.I.run(fn, args, None, mem)
        self.dead = self.st is None
        if self.dead:
            self.st = interp.State({}, ())
        self.trace = self.I.trace


def world(P, f, mems, args, extra=lambda r: {}, schedule=0):
    W = World(P, f, len(mems), mems, args, schedule)
    W.kw, W.extra = {}, extra
    try:
        return W.go()
    except P15.Failure as ex:
        raise facts.Violated(str(ex), where(f, P))


# partitions of a row of elements: (blocks, local node order) of every rank
def parts(cut, n=4, bid=7, first=0):
    els = list(zip((5, 31, 2, 18, 11, 40)[:n], bar(n, first)))
    out = []
    for k, own in enumerate(cut):
        x = {bid: [els[i] for i in own]} if own else {}
        ns = sorted({m for _, v in x.get(bid, ()) for m in v}, key=lambda m: (m * (5 + 2 * k)) % 13 * 100 + m)
        out.append((x, ns))
    return els, out


def partition(P, R):
    f = P.fn(CM + '::RemoveInternalSkinFaces')
    R.used(f)
    wh = where(f, P)
    for nm, cut in {'one rank': [[0, 1, 2]], 'two ranks': [[0, 1], [2, 3]], 'two ranks, two faces': [[0, 2], [1]], 'three ranks': [[1], [0], [2, 3]], 'a rank without elements': [[0], [], [1, 2]], 'four ranks, alternating': [[0, 2], [1], [3], []]}.items():
        for sch in (0, 1):
            els, ps = parts(cut)
            mems, ins = [], []
            for x, ns in ps:
                m = Mesh(x, ns)
                mem = meshmem(P, m, 'arg0') if ns else meshmem(P, exo.File(blocks=[], nodes=0, nodesets=[], sidesets=[]), 'arg0')
                fc = [(list(k), 1000 + 8 * e + j) for k, (e, j) in sorted(skinof(x.get(7, ())).items())]
                loc = {n: i for i, n in enumerate(ns)}
                mem[('arg1', (('f', '#size'),))] = Poly.const(len(fc))
                for i, (k, _) in enumerate(fc):
                    mem.update(vecmem('arg1', [Poly.const(loc[n]) for n in k], (('i', Poly.const(i)),)))
                mem.update(vecmem('arg2', [Poly.const(v) for _, v in fc]))
                mems.append(mem)
                ins.append(fc)
            W = world(P, f, mems, lambda r: [None, None, None], schedule=sch)
            for r, run_ in enumerate(W.runs):
                mine = {frozenset(k) for k, _ in ins[r]}
                other = {frozenset(k) for q, v in enumerate(ins) if q != r for k, _ in v}
                want = sorted((canon(k), v) for k, v in ins[r] if frozenset(k) not in other)
                tb, en = table(run_, 'arg1'), ivec(run_, 'arg2')
                ns = ps[r][1]
                if en is None or None in [x for t in tb for x in t] + en:
                    R.check(None, 'partition', '%s, rank %d, order %d' % (nm, r, sch), wh, 'not determined')
                    continue
                got = sorted((canon([ns[x] for x in t]), v) for t, v in zip(tb, en)) if len(tb) == len(en) else None
                R.check(got == want and not P18.stop(run_), 'partition', '%s, rank %d, order %d' % (nm, r, sch), wh,
                        'keeps %s, required %s' % ([x for x in got or () if x not in want][:3], [x for x in want if x not in (got or ())][:3]))


# ------------------------------------------------------------------ contact faces and nodes
GH = 'nimble::VectorCommunicator::GetPartitionBoundaryNodeLocalIds'
PRIM, SEC, REST = 7, 3, 9
EID = {PRIM: (5, 31, 7, 25), SEC: (40, 8, 27), REST: (90, 91)}
# elements of the primary, secondary and other block on every rank
SPLITS = {
    'one rank': [((0, 1), (0, 1), (0,))],
    'one rank, single elements': [((0,), (0,), ())],
    'two ranks': [((0, 1), (0,), ()), ((2,), (1,), (0,))],
    'two ranks, one without primary elements': [((), (0, 1), (0,)), ((0, 1), (2,), ())],
    'two ranks, close numbers': [((0, 1), (0,), ()), ((2, 3), (1, 2), ())],
    'two ranks, the second without primary elements': [((0,), (0,), ()), ((), (1, 2), (0, 1))],
    'three ranks, one without contact': [((0,), (1,), ()), ((), (), (0, 1)), ((1, 2), (0, 2), ())],
}
BARS = {PRIM: bar(4), SEC: bar(3, 100, (3, 0, 2)), REST: bar(2, 200)}


def manager(P, R, r=0):
    """memory of a newly constructed contact manager"""
    f = P.fn(CM + '::ContactManager', 2)
    R.used(f)
    x = Run0(P, f, [Val('obj', ('ifp', ())), None], {('this', (('f', '#type'),)): T.strv(CM), ('ifp', ()): T.ptr(('interface', ()))}, 500000 + 1000 * r, machine=views.Interp, peel=True)
    return {k: v for k, v in x.st.mem.items() if k[0] not in ('arg0', 'arg1')}


def X_(n, k):
    return Poly.sym('X%d.%s' % (n, 'xyz'[k]))


def edge2(a, b):
    return sum_([(X_(a, k) - X_(b, k)) * (X_(a, k) - X_(b, k)) for k in range(3)])


def longest(faces):
    o = None
    for f in faces:
        for i in range(4):
            d = edge2(f[i], f[(i + 1) % 4])
            o = d if o is None else T.ite(T.b_gt0(d - o), d, o)
    return T.app('sqrt', o)


def entities(P, R):
    f = P.fn(CM + '::CreateContactEntities')
    R.used(f)
    for nm, split in SPLITS.items():
        R.guard('entities', nm, case, P, R, f, nm, split)


def build(P, R, nm):
    """contact surfaces of a distribution of the elements: (blocks, nodes) and run of every rank"""
    f = P.fn(CM + '::CreateContactEntities')
    split = SPLITS[nm]
    ranks, mems = [], []
    for r, own in enumerate(split):
        x = {b: [(EID[b][i], BARS[b][i]) for i in o] for b, o in zip((PRIM, SEC, REST), own) if o}
        ns = sorted({m for v in x.values() for _, e in v for m in e}, key=lambda m: (m * (5 + 2 * r)) % 13 * 1000 + m)
        ranks.append((x, ns))
    holders = lambda n: [q for q, (_, ns) in enumerate(ranks) if n in ns]
    for r, (x, ns) in enumerate(ranks):
        mem = manager(P, R, r)
        mem.update(meshmem(P, Mesh(x, ns), 'arg0'))
        mem.update(vecmem('arg2', [Poly.const(PRIM)] if PRIM in x else []))
        mem.update(vecmem('arg3', [Poly.const(SEC)] if SEC in x else []))
        mems.append(mem)

    def extra(r):
        def ghosts(I, e, st, fr):
            ns = ranks[r][1]
            sh = [(i, min(holders(n))) for i, n in enumerate(ns) if len(holders(n)) > 1]
            for a, vals in zip(e['args'], zip(*sh) if sh else ((), ())):
                loc = I.lv(a, st, fr)
                I.drop(st, loc)
                for k, v in vecmem(loc[0], [Poly.const(v) for v in vals], loc[1]).items():
                    I.put(st, k, v)
            return T.VOID
        return {GH: ghosts}
    return ranks, mems, world(P, f, mems, lambda r: [None, None, None, None], extra).runs


def case(P, R, f, nm, split):
    wh = where(f, P)
    tri, node = enum(P, 'TRIANGLE'), enum(P, 'NODE')
    ranks, mems, runs = build(P, R, nm)
    holders = lambda n: [q for q, (_, ns) in enumerate(ranks) if n in ns]
    off = max(3 * n + 2 for _, ns in ranks for n in ns) - 1
    allskin = {b: [set(map(frozenset, skinof(x.get(b, ())))) for x, _ in ranks] for b in (PRIM, SEC)}
    uniq = {}
    for r, run_ in enumerate(runs):
        x, ns = ranks[r]
        tag = '%s, rank %d: ' % (nm, r)
        mine = {b: {k: v for k, v in skinof(x.get(b, ())).items() if not any(frozenset(k) in o for q, o in enumerate(allskin[b]) if q != r)} for b in (PRIM, SEC)}
        ck = lambda cond, w, msg='differs': R.check(cond, 'entities', tag + w, wh, msg)
        ck(not P18.stop(run_), 'completes', 'stops')
        ck(run_.I.load(run_.st, ('this', (('f', 'contact_enabled_'),)), 'bool') == TRUE, 'contact is enabled')
        v = lambda name: run_.st.mem.get(('this', (('f', name),)))
        ids = ivec(run_, ('this')) if False else [int_(run_, ('this', (('f', 'node_ids_'), ('i', Poly.const(i))))) for i in range(run_.I.size_of(run_.st, ('this', (('f', 'node_ids_'),)), '').as_int())]
        want = {n for b in mine for k in mine[b] for n in k}
        if None in ids or any(not 0 <= i < len(ns) for i in ids):
            ck(None if None in ids else False, 'submodel nodes', 'gives %s' % ids)
            continue
        sub = [ns[i] for i in ids]
        ck(sorted(sub) == sorted(want), 'submodel nodes', 'holds the nodes %s, required %s' % (sorted(sub), sorted(want)))
        num = lambda l, t='double': T.to_num(run_.I.load(run_.st, l, t))
        for a, val in (('node_ids_d_', lambda i: Poly.const(ids[i])), ('model_coord_d_', lambda i: X_(sub[i // 3], i % 3)), ('coord_d_', lambda i: X_(sub[i // 3], i % 3)), ('force_d_', lambda i: ZERO)):
            w, n = v(a), len(ids) * (1 if a == 'node_ids_d_' else 3)
            ok = isinstance(w, Val) and w.tag == 'vw' and w.a[3][0] == Poly.const(n) and all(num(run_.I.cell(w, [Poly.const(i)])) == val(i) for i in range(n))
            ck(ok, a)
        for a, val in (('model_coord_', lambda i: X_(sub[i // 3], i % 3)), ('coord_', lambda i: X_(sub[i // 3], i % 3)), ('force_', lambda i: ZERO)):
            n = run_.I.size_of(run_.st, ('this', (('f', a),)), '')
            ck(n == Poly.const(3 * len(ids)) and all(num(('this', (('f', a), ('i', Poly.const(i))))) == val(i) for i in range(3 * len(ids))), a)
        for side in 'hd':
            wf, wn = v('contact_faces_%s_' % side), v('contact_nodes_%s_' % side)
            if not all(isinstance(w, Val) and w.tag == 'vw' for w in (wf, wn)):
                ck(None, 'views ' + side)
                continue
            nf, nn = wf.a[3][0].as_int(), wn.a[3][0].as_int()
            own = sorted({n for k in mine[SEC] for n in k if min(holders(n)) == r})
            ck(nf == 4 * len(mine[PRIM]), 'number of faces ' + side, '%s faces, required %d' % (nf, 4 * len(mine[PRIM])))
            ck(nn == len(own), 'number of nodes ' + side, '%s nodes, required %d' % (nn, len(own)))
            if nf is None or nn is None:
                continue
            base = {(e + off) << 5 | j << 2: (k, e, j) for k, (e, j) in mine[PRIM].items()}
            edges = {}
            for i in range(nf):
                l = run_.I.cell(wf, [Poly.const(i)])
                g = lambda n, t='int': num((l[0], l[1] + (('f', n),)), t)
                gi = lambda n: g(n).as_int() if isinstance(g(n), Poly) else None
                eid = gi('contact_entity_global_id_')
                if eid is None or eid & ~3 not in base:
                    ck(None if eid is None else False, 'face id %s %d' % (side, i), 'the id %s is none of a primary face' % eid)
                    continue
                k = base[eid & ~3][0]
                a, b = gi('node_id_for_node_1_'), gi('node_id_for_node_2_')
                fic = [gi('node_id_%d_for_fictitious_node_' % j) for j in range(1, 5)]
                if any(q is None or not 0 <= q < len(sub) for q in [a, b] + fic):
                    ck(False, 'nodes of face %d %s' % (eid, side), 'gives %s' % ([a, b] + fic))
                    continue
                a, b = sub[a], sub[b]
                edges.setdefault(eid & ~3, {})[eid & 3] = (a, b)
                ck(sorted(sub[q] for q in fic) == sorted(k) and g('entity_type_') == tri and gi('num_nodes_') == 3 and gi('local_id_') == i and g('contact_status_', 'bool') == ZERO, 'face %d %s: type, position and centre nodes' % (eid, side))
                ok = all(g('coord_1_%s_' % d, 'double') == X_(a, j) and g('coord_2_%s_' % d, 'double') == X_(b, j) and g('coord_3_%s_' % d, 'double') == sum_([X_(n, j) for n in k]) * Poly.const(T.Fraction(1, 4)) for j, d in enumerate('xyz'))
                ck(ok, 'face %d %s: coordinates' % (eid, side))
                if side == 'd' or r == 0 and i < 8:
                    eq(R, 'entities', tag + 'face %d %s: length' % (eid, side), wh, g('char_len_', 'double'), longest([k]))
            for e, k in base.items():
                got = edges.get(e, {})
                ck(sorted(got) == [0, 1, 2, 3] and sorted(got.values()) == sorted((k[0][j], k[0][(j + 1) % 4]) for j in range(4)), 'triangles of face %d %s' % (e, side), 'gives %s' % got)
            seen = []
            for i in range(nn):
                l = run_.I.cell(wn, [Poly.const(i)])
                g = lambda n, t='int': num((l[0], l[1] + (('f', n),)), t)
                gi = lambda n: g(n).as_int() if isinstance(g(n), Poly) else None
                a = gi('node_id_for_node_1_')
                if a is None or not 0 <= a < len(sub):
                    ck(None if a is None else False, 'node %d %s' % (i, side), 'node number %s' % a)
                    continue
                a = sub[a]
                seen.append(a)
                ck(g('entity_type_') == node and gi('num_nodes_') == 1 and gi('local_id_') == i and gi('contact_entity_global_id_') == 3 * a + 2 and g('contact_status_', 'bool') == ZERO, 'node %d %s: type, position and id' % (a, side), 'id %s' % gi('contact_entity_global_id_'))
                ck(all(g('coord_1_%s_' % d, 'double') == X_(a, j) for j, d in enumerate('xyz')), 'node %d %s: coordinates' % (a, side))
                if side == 'd' or r == 0 and i < 4:
                    eq(R, 'entities', tag + 'node %d %s: length' % (a, side), wh, g('char_len_', 'double'), longest([k for k in mine[SEC] if a in k]))
                if side == 'd':
                    uniq.setdefault(('n', a), []).append(r)
            ck(sorted(seen) == own, 'nodes ' + side, 'has %s, required %s' % (sorted(seen), own))
    every = {n for b in (SEC,) for r in range(len(ranks)) for k in skinof(ranks[r][0].get(SEC, ())) if not any(frozenset(k) in o for q, o in enumerate(allskin[b]) if q != r) for n in k}
    R.check(all(len(uniq.get(('n', n), ())) <= 1 for n in every), 'entities', nm + ': no node is an entity of two ranks', wh, 'duplicates')
