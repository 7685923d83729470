"""Mesh input: the mesh handed to the code is the mesh of the file."""
from .lib import *
from . import exo

UNITS = ['nimble_genesis_mesh.cc']
GM = 'nimble::GenesisMesh'
ONEBASED = 1


def stopped(r):
    return any(e.kind == 'throw' or e.kind == 'call' and e.q in ('abort', 'exit', 'MPI_Abort', 'std::abort', 'std::terminate') for e in r.trace)


def run(P, R):
    R.rule('mesh', 'nodes, ids, coordinates, blocks, connectivity and sets equal those of the file, zero-based', 60)
    R.rule('access', 'accessors return exactly the stored mesh', 30)
    R.rule('errors', 'errors of the mesh library and unsupported files stop the run', 20)
    R.rule('calls', 'every library call stays inside the memory it is given and uses the open file', 3)
    R.rule('text', 'the text format is read into the same mesh', 20)
    for nm, f in files().items():
        R.guard('mesh', nm, mesh, P, R, nm, f)
    R.guard('errors', 'errors', errors, P, R)
    R.guard('access', 'access', access, P, R)
    R.guard('text', 'text', text, P, R)


def files():
    S = 'original_global_id_map'
    return {
        'three blocks': exo.File(),
        'partition with id maps': exo.File(blocks=[(7, 'a', 'HEX', 1, 8), (2, '', 'HEX', 2, 8)], node_maps=[S], elem_maps=[S], nodes=12,
                                           nodesets=[(8, 'x', 3, 3), (2, '', 0, 0), (6, '', 1, 1)], sidesets=[]),
        'sets without distribution factors': exo.File(nodesets=[(4, '', 3, 0), (2, 'b', 1, 1)], sidesets=[(6, '', 2, 0), (1, 's', 2, 8)]),
        'plane': exo.File(dim=2, blocks=[(1, '', 'QUAD', 2, 4)], nodes=6, nodesets=[], sidesets=[]),
        'node map only': exo.File(blocks=[(3, '', 'HEX', 1, 8)], node_maps=[S], nodes=8, nodesets=[(1, '', 2, 2)], sidesets=[]),
        'element map only': exo.File(blocks=[(3, '', 'HEX', 2, 8)], elem_maps=[S], nodes=12, nodesets=[(1, '', 2, 2)], sidesets=[]),
    }


def read(P, R, f, **kw):
    X = exo.Reader(P, f, **kw)
    C = Chain(P, GM, R, intr=X.intr())
    r = C.call('ReadFile', [T.strv('m.g')])
    return X, C, r


def mesh(P, R, nm, f):
    fn = P.fn(GM + '::ReadFile')
    wh = where(fn, P)
    X, C, r = read(P, R, f)
    R.check(not X.errors, 'calls', nm, wh, '; '.join(X.errors[:3]))
    R.check(not stopped(r), 'mesh', '%s: is accepted' % nm, wh, 'the file is rejected')
    R.check(bool(X.calls) and not X.open, 'calls', '%s: the file is closed' % nm, wh, 'left open')
    check(P, R, C, nm, f, 'mesh', wh)


def vec(C, name, args=()):
    """entries of a returned vector or pointer to n entries"""
    r = C.call(name, list(args))
    return r


def entries(r, loc, n):
    return [T.to_num(r.I.load(r.st, (loc[0], loc[1] + (('i', Poly.const(i)),)), 'int')) for i in range(n)]


def objloc(r):
    v = r.ret
    if isinstance(v, Val) and v.tag in ('obj', 'ptr', 'lref'):
        return v.a[0]
    raise AnalysisError('result %s' % T.vstr(v)[:80])


def check(P, R, C, nm, f, rule, wh, aux=None, sides=True, dist=True):
    def sc(name, want, args=()):
        r = C.call(name, list(args), n=len(args))
        eq(R, rule, '%s: %s%s' % (nm, name, ''.join(' ' + T.vstr(a) for a in args)), wh, T.to_num(r.ret), Poly.const(want) if isinstance(want, int) else want)

    def arr(name, want, args=(), pred=None):
        r = C.call(name, list(args), n=len(args), pred=pred)
        loc = objloc(r)
        if r.fn['rt'].rstrip().endswith('*'):
            if loc[1] and loc[1][-1][0] == 'i':
                loc = (loc[0], loc[1][:-1])
        n = r.I.size_of(r.st, loc, '')
        eq(R, rule, '%s: entries of %s%s' % (nm, name, ''.join(' ' + T.vstr(a) for a in args)), wh, n, Poly.const(len(want)))
        for i, (g, w) in enumerate(zip(entries(r, loc, len(want)), want)):
            eq(R, rule, '%s: %s%s [%d]' % (nm, name, ''.join(' ' + T.vstr(a) for a in args), i), wh, g, w)

    def maparr(name, want, typ='vec', pred=None):
        r = C.call(name, [], n=0, pred=pred)
        loc = objloc(r)
        ks = r.st.mem.get((loc[0], loc[1] + (('f', '#keys'),)))
        got = sorted(k.as_int() for k in ks.a) if isinstance(ks, Val) and ks.tag == 'keys' and all(isinstance(k, Poly) for k in ks.a) else None
        R.check(got == sorted(want), rule, '%s: keys of %s' % (nm, name), wh, 'keys %s, required %s' % (got, sorted(want)))
        for k, w in want.items():
            l = (loc[0], loc[1] + (('i', Poly.const(k)),))
            if typ == 'vec':
                eq(R, rule, '%s: entries of %s %d' % (nm, name, k), wh, r.I.size_of(r.st, l, ''), Poly.const(len(w)))
                for i, x in enumerate(w):
                    eq(R, rule, '%s: %s %d [%d]' % (nm, name, k, i), wh, T.to_num(r.I.load(r.st, (l[0], l[1] + (('i', Poly.const(i)),)), 'double')), x)
            elif typ == 'int':
                eq(R, rule, '%s: %s %d' % (nm, name, k), wh, T.to_num(r.I.load(r.st, l, 'int')), Poly.const(w))
            else:
                v = T.vstr(r.I.load(r.st, l, 'std::basic_string<char>'))
                R.check(v == '"%s"' % w, rule, '%s: %s %d' % (nm, name, k), wh, 'name %s, required %s' % (v, w))

    one = lambda p: p - ONE
    sc('GetDim', f.dim)
    sc('GetNumNodes', f.nodes)
    sc('GetNumElements', f.elems)
    full_blocks = [b for b in f.blocks if b[3] > 0]
    sc('GetNumBlocks', len(full_blocks))
    sc('GetNumGlobalBlocks', len(f.blocks))
    sc('GetNumNodeGlobalIds', f.nodes)
    for k in range(f.dim):
        arr('GetCoordinates' + 'XYZ'[k], [f.coord(i, k) for i in range(f.nodes)])
    nid = [one(f.idmap('EX_NODE_MAP', i, bool(f.maps['EX_NODE_MAP']))) for i in range(f.nodes)]
    eid = [one(f.idmap('EX_ELEM_MAP', i, bool(f.maps['EX_ELEM_MAP']))) for i in range(f.elems)]
    arr('GetNodeGlobalIds', nid)
    arr('GetElementGlobalIds', eid)
    arr('GetBlockIds', [Poly.const(b[0]) for b in full_blocks])
    arr('GetAllBlockIds', [Poly.const(b[0]) for b in f.blocks])
    off = 0
    for b in f.blocks:
        r = C.call('GetBlockName', [Poly.const(b[0])])
        w = b[1] or 'block_%d' % b[0]
        g = r.ret
        if isinstance(g, Val) and g.tag in ('obj', 'lref'):
            g = r.I.load(r.st, g.a[0], 'std::basic_string<char>')
        R.check(T.vstr(g) == '"%s"' % w, rule, '%s: name of block %d' % (nm, b[0]), wh, 'name %s, required %s' % (T.vstr(g), w))
        r = C.call('HasBlock', [T.strv(w)])
        R.check(T.to_bool(r.ret) == (TRUE if b[3] else FALSE), rule, '%s: block %d is on this rank' % (nm, b[0]), wh, T.vstr(r.ret))
        if not b[3]:
            continue
        r = C.call('GetBlockId', [T.strv(w)])
        eq(R, rule, '%s: block id of %s' % (nm, w), wh, T.to_num(r.ret), Poly.const(b[0]))
        arr('GetElementGlobalIdsInBlock', eid[off:off + b[3]], [Poly.const(b[0])])
        off += b[3]
        sc('GetNumElementsInBlock', b[3], [Poly.const(b[0])])
        sc('GetNumNodesPerElement', b[4], [Poly.const(b[0])])
        arr('GetConnectivity', [one(f.conn(b[0], i)) for i in range(b[3] * b[4])], [Poly.const(b[0])])
    maparr('GetConnectivity', {b[0]: [one(f.conn(b[0], i)) for i in range(b[3] * b[4])] for b in full_blocks})
    maparr('GetNumElementsInBlock', {b[0]: b[3] for b in full_blocks}, 'int')
    maparr('GetNumNodesPerElement', {b[0]: b[4] for b in full_blocks}, 'int')
    for kind, q, Q, pre, sets in (('EX_NODE_SET', 'NodeSet', 'NodeSets', 'nodelist_', f.nodesets), ('EX_SIDE_SET', 'SideSet', 'SideSets', 'sideset_', f.sidesets)):
        if kind == 'EX_SIDE_SET' and not sides:
            continue
        sc('GetNum%s' % Q, len(sets))
        arr('Get%sIds' % q, [Poly.const(s[0]) for s in sets])
        maparr('Get%sNames' % q, {s[0]: s[1] or pre + str(s[0]) for s in sets}, 'str')
        maparr('Get%s' % Q, {s[0]: [one(f.entry(kind, s[0], i)) for i in range(s[2])] for s in sets})
        if dist:
            maparr('Get%sDistributionFactors' % q, {s[0]: [f.dist(kind, s[0], i) for i in range(s[3])] for s in sets})


def errors(P, R):
    fn = P.fn(GM + '::ReadFile')
    wh = where(fn, P)
    f = exo.File(nodesets=[(3, '', 2, 2)], sidesets=[(9, '', 2, 2)], node_maps=['original_global_id_map'], elem_maps=['original_global_id_map'])
    X, C, r = read(P, R, f)
    n = len(X.calls)
    for k in range(n):
        nm, line, _ = X.calls[k]
        Y, C, r = read(P, R, f, fail=k)
        R.check(stopped(r), 'errors', 'failure of ex_%s (call %d)' % (nm, k + 1), '%s:%s' % (P.rel(fn), line), 'the run goes on with an incomplete mesh')
    for nm, kw in (('two node maps', dict(node_maps=['original_global_id_map', 'b'])), ('two element maps', dict(elem_maps=['a', 'original_global_id_map'])),
                   ('unknown node map', dict(node_maps=['other'])), ('unknown element map', dict(elem_maps=['other']))):
        X, C, r = read(P, R, exo.File(**kw))
        R.check(stopped(r), 'errors', nm, wh, 'accepted')
    X, C, r = read(P, R, exo.File())
    C.mem = {}
    # no file
    C = Chain(P, GM, R, intr=exo.Reader(P, f).intr())
    r = C.call('ReadFile', [T.strv('none')])
    r = C.call('IsValid')
    R.check(T.to_bool(r.ret) == FALSE, 'errors', 'no mesh file: not valid', wh, T.vstr(r.ret))


def access(P, R):
    f = exo.File()
    X, C, r0 = read(P, R, f)
    wt = where(P.fn(GM + '::GetElementType'), P)
    TYPES = {(2, 3): 'TRIANGLE:', (2, 4): 'QUAD', (3, 1): 'SPHERE', (3, 3): 'TRIANGLE', (3, 4): 'TETRA', (3, 8): 'HEX'}
    for dim in (2, 3):
        for n in (1, 3, 4, 8, 2, 6, 20):
            D = Chain(P, GM, R, mem=C.mem)
            D.mem[('this', (('f', 'dim_'),))] = Poly.const(dim)
            D.mem[('this', (('f', 'block_num_nodes_per_elem_'), ('i', Poly.const(5))))] = Poly.const(n)
            r = D.call('GetElementType', [Poly.const(5)])
            w = TYPES.get((dim, n))
            if w is None:
                R.check(stopped(r), 'access', 'element with %d nodes in %dD is rejected' % (n, dim), wt, 'type %s' % T.vstr(r.ret))
            else:
                # the type name of a plane triangle carries a colon; readers compare the first letters only
                R.check(T.vstr(r.ret).strip('"').rstrip(':') == w.rstrip(':'), 'access', 'element type %d nodes in %dD' % (n, dim), wt, 'type %s, required %s' % (T.vstr(r.ret), w))
    wb = where(P.fn(GM + '::BoundingBox'), P)
    r = C.call('BoundingBox', [None] * 6)
    for k in range(3):
        xs = [f.coord(i, k) for i in range(f.nodes)]
        lo, hi = xs[0], xs[0]
        for x in xs[1:]:
            lo, hi = T.minmax('min', lo, x), T.minmax('max', hi, x)
        eq(R, 'access', 'lower bound in %s' % 'xyz'[k], wb, T.to_num(r.at(('arg%d' % (2 * k), ()))), lo)
        eq(R, 'access', 'upper bound in %s' % 'xyz'[k], wb, T.to_num(r.at(('arg%d' % (2 * k + 1), ()))), hi)
        rc = C.call('BoundingBoxCenter')
        eq(R, 'access', 'centre in %s' % 'xyz'[k], where(P.fn(GM + '::BoundingBoxCenter'), P),
           T.to_num(rc.I.load(rc.st, (rc.ret.a[0][0], rc.ret.a[0][1] + (('i', Poly.const(k)),)), 'double')), (lo + hi).scale(Fraction(1, 2)))
    wm = where(P.fn(GM + '::GetMaxNodeGlobalId'), P)
    r = C.call('GetMaxNodeGlobalId')
    m = Poly.const(-1)
    for i in range(f.nodes):
        m = T.minmax('max', m, f.idmap('EX_NODE_MAP', i) - ONE)
    eq(R, 'access', 'largest global node id', wm, T.to_num(r.ret), m, n=12)
    wp = where(P.fn(GM + '::AppendPeriodicPair'), P)
    r = C.call('AppendPeriodicPair', [Poly.const(3), Poly.const(1), None, None], mem={('arg2', (('i', Poly.const(3)),)): Poly.const(70), ('arg2', (('i', Poly.const(1)),)): Poly.const(40),
                                                                                   ('arg3', (('f', '#keys'),)): Val('keys'), ('arg3', (('f', '#size'),)): ZERO})
    ks = r.st.mem.get(('arg3', (('f', '#keys'),)))
    R.check(isinstance(ks, Val) and [k.as_int() for k in ks.a] == [40], 'access', 'periodic pair is entered once', wp, 'keys %s' % (ks,))
    eq(R, 'access', 'periodic pair maps secondary to primary', wp, T.to_num(r.at('arg3', 40, t='int')), Poly.const(70))
    wn = where(P.fn(GM + '::BlockNamesToOnProcessorBlockIds'), P)
    m = vecmem('arg0', [T.strv(x) for x in ('steel', 'block_11', 'nothing', 'block_20')])
    m.update(vecmem('arg1', [Poly.const(99)]))
    r = C.call('BlockNamesToOnProcessorBlockIds', mem=m)
    n = r.I.size_of(r.st, ('arg1', ()), '')
    eq(R, 'access', 'blocks on this rank by name', wn, n, Poly.const(2))
    for i, w in enumerate((5, 20)):
        eq(R, 'access', 'block id %d by name' % i, wn, T.to_num(r.at('arg1', i, t='int')), Poly.const(w))
    r = C.call('GetBlockId', [T.strv('nothing')])
    R.check(stopped(r), 'access', 'an unknown block name is rejected', where(P.fn(GM + '::GetBlockId'), P), 'accepted')
    # a mesh built from data
    fi = P.fn(GM + '::Initialize')
    wh = where(fi, P)
    g = exo.File(blocks=[(4, 'a', 'HEX', 1, 8), (9, 'b', 'HEX', 2, 8)], nodes=12, nodesets=[], sidesets=[])
    m = vecmem('arg1', [g.idmap('EX_NODE_MAP', i) - ONE for i in range(g.nodes)])
    for k in range(3):
        m.update(vecmem('arg%d' % (2 + k), [g.coord(i, k) for i in range(g.nodes)]))
    m.update(vecmem('arg5', [g.idmap('EX_ELEM_MAP', i) - ONE for i in range(g.elems)]))
    m.update(vecmem('arg6', [Poly.const(b[0]) for b in g.blocks]))
    for a in (7, 8, 9, 10):
        m[('arg%d' % a, (('f', '#keys'),))] = Val('keys', *[Poly.const(b[0]) for b in g.blocks])
        m[('arg%d' % a, (('f', '#size'),))] = Poly.const(len(g.blocks))
    off = 0
    for b in g.blocks:
        i = ('i', Poly.const(b[0]))
        m[('arg7', (i,))] = T.strv(b[1])
        m[('arg9', (i,))] = Poly.const(b[4])
        m.update(vecmem('arg8', [g.idmap('EX_ELEM_MAP', off + j) - ONE for j in range(b[3])], (i,)))
        m.update(vecmem('arg10', [g.conn(b[0], j) - ONE for j in range(b[3] * b[4])], (i,)))
        off += b[3]
    D = Chain(P, GM, R)
    r = D.call('Initialize', [T.strv('contact.g')], mem=m)
    check(P, R, D, 'built from data', g, 'access', wh, sides=True)


TEXT = """number_of_nodes 5
number_of_elements 3
number_of_blocks 2
number_of_node_sets 2
node_coordinates
7 0.5 1.25 -2
3 1.5 0 4
9 2 3 5e-1
1 -1.5 2.5 8
4 6 7 9
element_block
20 top 2 4
12 1 3 2 5
15 5 2 4 1
element_block
5 steel 1 3
2 4 3 2
nodeset
3 left 2
5
1
nodeset
1 right 1
4
"""


class TextFile(exo.File):
    """the mesh TEXT describes"""
    X = [(Fraction(1, 2), Fraction(5, 4), -2), (Fraction(3, 2), 0, 4), (2, 3, Fraction(1, 2)), (Fraction(-3, 2), Fraction(5, 2), 8), (6, 7, 9)]
    N, E = [7, 3, 9, 1, 4], [12, 15, 2]
    C = {20: [1, 3, 2, 5, 5, 2, 4, 1], 5: [4, 3, 2]}
    S = {3: [5, 1], 1: [4]}

    def __init__(self):
        super().__init__(blocks=[(20, 'top', '', 2, 4), (5, 'steel', '', 1, 3)], nodesets=[(3, 'left', 2, 0), (1, 'right', 1, 0)], sidesets=[])

    def coord(self, i, k):
        return Poly.const(self.X[i][k])

    def idmap(self, kind, i, aux=False):
        return Poly.const((self.N if kind == 'EX_NODE_MAP' else self.E)[i])

    def conn(self, b, i):
        return Poly.const(self.C[b][i])

    def entry(self, kind, s, i):
        return Poly.const(self.S[s][i])


def text(P, R):
    fn = P.fn(GM + '::ReadTextFile')
    wh = where(fn, P)
    C = Chain(P, GM, R, files={'m.g.txt': TEXT})
    r = C.call('ReadTextFile', [T.strv('m.g')])
    R.check(not stopped(r) or all(e.guards for e in r.trace if e.kind == 'throw'), 'text', 'is accepted', wh, 'rejected')
    check(P, R, C, 'text', TextFile(), 'text', wh, dist=False)

