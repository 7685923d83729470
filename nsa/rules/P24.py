"""Contact output: the surfaces as they are, at every written step."""
from .lib import *
from . import exo, P10, P15, P18, P21, P23
from .P21 import CM

UNITS = P21.UNITS + ['nimble_exodus_output.cc']
XYZ = 'xyz'


def run(P, R):
    R.rule('mesh', 'one triangle for every contact face and one sphere for every contact node, with their coordinates and identifiers', 20)
    R.rule('ids', 'identifiers of nodes and of elements are unique over all ranks', 6)
    R.rule('frame', 'a frame holds the time, the number of active faces, displacements and states of all surface nodes', 30)
    R.rule('setup', 'the surfaces are shown when the deck asks, with every output, in a file next to it', 3)
    R.guard('setup', 'contact set-up', P21.setup, P, R)
    for nm in P21.SPLITS:
        R.guard('mesh', nm, case, P, R, nm)


def member(r, views, base, side, i):
    w = base[('this', (('f', 'contact_%s_%s_' % (views, side)),))]
    return r.I.cell(w, [c(i)])


def case(P, R, nm):
    ranks, mems, runs = P21.build(P, R, nm)
    mems = [{k: v for k, v in x.st.mem.items() if k[0] not in ('arg0', 'arg1', 'arg2', 'arg3')} for x in runs]
    n = len(ranks)
    num = lambda r, l, t='double': T.to_num(runs[r].I.load(interp.State(mems[r], ()), l, t))
    count = lambda r, kind: mems[r][('this', (('f', 'contact_%s_h_' % kind),))].a[3][0].as_int()
    fld = lambda l, q: (l[0], l[1] + (('f', q),))
    # the host copies hold coordinates of their own
    corner = {}
    for r in range(n):
        for kind, m in (('faces', 3), ('nodes', 1)):
            for i in range(count(r, kind)):
                for side in 'hd':
                    l = member(runs[r], kind, mems[r], side, i)
                    for j in range(1, m + 1):
                        for k in XYZ:
                            mems[r][fld(l, 'coord_%d_%s_' % (j, k))] = Poly.sym('%s%d%s%d.%d%s' % (side, r, kind, i, j, k))
    pos = lambda r, s: [[Poly.sym('%s%d%s%d.%d%s' % (s, r, kind, i, j, k)) for k in XYZ] for kind, m in (('faces', 3), ('nodes', 1)) for i in range(count(r, kind)) for j in range(1, m + 1)]
    W = [exo.Writer() for _ in range(n)]
    f = P.fn(CM + '::InitializeContactVisualization')
    R.used(f)
    wh = where(f, P)
    x = P21.world(P, f, mems, lambda r: [T.strv('cv.e')], lambda r: W[r].intr()).runs
    allnodes, allelems = {}, {}
    for r in range(n):
        tag = '%s, rank %d: ' % (nm, r)
        ck = lambda cond, w, msg='differs': R.check(cond, 'mesh', tag + w, wh, msg)
        same = lambda w, got, want: ck(got == want, w, 'writes %s, required %s' % (str(got)[:200], str(want)[:200]))
        db = W[r].db
        ck(not P18.stop(x[r]), 'is written', 'stops')
        ck(not W[r].errors and W[r].handle is None, 'library calls', '; '.join(W[r].errors[:3]) or 'the database is left open')
        same('file', (db.get('file') or ('',) * 2)[:2], ('create', 'cv.e'))
        nf, nn = count(r, 'faces'), count(r, 'nodes')
        same('sizes', db.get('init'), [3, 3 * nf + nn, nf + nn, 2, 0, 0])
        same('blocks', sorted(db.get('block order', [])), [1, 2])
        same('block names', dict(zip(db.get('block order', []), db.get(('names', 'EX_ELEM_BLOCK'), []))), {1: 'contact_faces', 2: 'contact_nodes'})
        for b, ne, k in ((1, nf, 3), (2, nn, 1)):
            g = db.get(('block', b)) or ('', None, None)
            ck(g[1] == ne and (not ne or g[2] == k), 'elements of block %d' % b, 'has %s elements of %s nodes, required %d of %d' % (g[1], g[2], ne, k))
        # coordinates through the connectivity: the numbering is free
        co = [db.get(('coord', k), []) for k in range(3)]
        cn = {b: [v.as_int() if isinstance(v, Poly) else None for v in db.get(('conn', b), [])] for b in (1, 2)}
        flat = cn[1] + cn[2]
        size = 3 * nf + nn
        ck(None if None in flat else sorted(flat) == list(range(1, size + 1)), 'every node belongs to one element', 'connectivity %s' % flat[:12])
        if None in flat or sorted(flat) != list(range(1, size + 1)) or any(len(v) != size for v in co):
            ck(False if None not in flat else None, 'coordinates', 'there are %s coordinates for %d nodes' % ([len(v) for v in co], size))
            continue
        got = [[co[k][i - 1] for k in range(3)] for i in flat]
        want = pos(r, 'h')
        # elements may come in any order within a block
        order = []
        ids = [v.as_int() if isinstance(v, Poly) else None for v in db.get(('map', 'EX_ELEM_MAP'), [])]
        nid = [v.as_int() if isinstance(v, Poly) else None for v in db.get(('map', 'EX_NODE_MAP'), [])]
        first = db.get('block order', [1])[0]
        offs = {1: 0 if first == 1 else nn, 2: nf if first == 1 else 0}
        for kind, b, ne, k in (('faces', 1, nf, 3), ('nodes', 2, nn, 1)):
            base = 0 if b == 1 else 3 * nf
            have = [tuple(map(str, sum(got[base + k * i: base + k * i + k], []))) for i in range(ne)]
            need = [tuple(map(str, sum(want[base + k * i: base + k * i + k], []))) for i in range(ne)]
            ck(sorted(have) == sorted(need), 'coordinates of the contact ' + kind, 'differ in %d of %d' % (len([1 for h in have if h not in need]), ne))
            for i in range(ne):
                j = need.index(have[i]) if have[i] in need else None
                order += [(kind, j, q) for q in range(k)] if j is not None else [None] * k
                if j is None:
                    continue
                l = member(runs[r], kind, mems[r], 'h', j)
                gid = num(r, fld(l, 'contact_entity_global_id_'), 'int')
                e = ids[offs[b] + i] if offs[b] + i < len(ids) else None
                ck(Poly.const(e) == gid + ONE if e is not None else None if len(ids) == nf + nn else False, 'identifier of %s %d' % (kind, j), 'has %s, required %s' % (e, T.vstr(gid + ONE)))
                # a node entity of the whole model has the identifier of its node
                if kind == 'nodes':
                    m = nid[flat[base + i] - 1] if len(nid) == size else None
                    ck(m is not None and Poly.const(m) == gid + ONE, 'node identifier of node %d' % j, 'has %s, required %s' % (m, T.vstr(gid + ONE)))
        R.check(len(nid) == size and len(set(nid)) == size and None not in nid, 'ids', tag + 'node identifiers differ', wh, 'a node identifier occurs twice')
        R.check(len(ids) == nf + nn and len(set(ids)) == nf + nn and None not in ids, 'ids', tag + 'element identifiers differ', wh, 'an element identifier occurs twice')
        for i in nid:
            allnodes.setdefault(i, []).append(r)
        for i in ids:
            allelems.setdefault(i, []).append(r)
        same('global variables', db.get(('vars', 'EX_GLOBAL'), []), ['num_contacts'])
        nv = db.get(('vars', 'EX_NODAL'), [])
        names = ['contact_status', 'displacement_x', 'displacement_y', 'displacement_z']
        # a rank without surface has no nodal values
        ck(sorted(nv) == names or not size and not nv, 'nodal variables', 'declares %s' % nv)
        same('element variables', db.get(('vars', 'EX_ELEM_BLOCK'), []), [])
        if None in order or size and sorted(nv) != names:
            continue
        corner[r] = (flat, order, nv, got)
    R.check(all(len(v) == 1 for v in allnodes.values()), 'ids', nm + ': node identifiers over ranks', wh, 'ranks share %s' % [i for i, v in allnodes.items() if len(v) > 1][:3])
    R.check(all(len(v) == 1 for v in allelems.values()), 'ids', nm + ': element identifiers over ranks', wh, 'ranks share %s' % [i for i, v in allelems.items() if len(v) > 1][:3])
    # the frames
    f = P.fn(CM + '::ContactVisualizationWriteStep')
    R.used(f)
    wh = where(f, P)
    mems = [{k: v for k, v in a.st.mem.items() if k[0] != 'arg0'} for a in x]
    for step in (1, 2, 3):
        active = {}
        for r in range(n):
            for kind, m in (('faces', 3), ('nodes', 1)):
                for i in range(count(r, kind)):
                    on = (i * 5 + step + (kind == 'faces')) % (step + 1) == 0
                    active[r, kind, i] = on
                    l = member(x[r], kind, mems[r], 'd', i)
                    mems[r][fld(l, 'contact_status_')] = T.TRUE if on else T.FALSE
                    for j in range(1, m + 1):
                        for k in XYZ:
                            mems[r][fld(l, 'coord_%d_%s_' % (j, k))] = Poly.sym('s%d.%d%s%d.%d%s' % (step, r, kind, i, j, k))
            W[r].db, W[r].errors = {}, []
        t = Poly.sym('t%d' % step)
        x = P21.world(P, f, mems, lambda r: [t], lambda r: W[r].intr()).runs
        mems = [{k: v for k, v in a.st.mem.items() if k[0] != 'arg0'} for a in x]
        for r in range(n):
            if r not in corner:
                continue
            flat, order, nv, start = corner[r]
            tag = '%s, rank %d, frame %d: ' % (nm, r, step)
            ck = lambda cond, w, msg='differs': R.check(cond, 'frame', tag + w, wh, msg)
            db = W[r].db
            ck(not P18.stop(x[r]), 'is written', 'stops')
            ck(not W[r].errors and W[r].handle is None, 'library calls', '; '.join(W[r].errors[:3]) or 'the database is left open')
            ck((db.pop('file', None) or ('',) * 2)[:2] == ('open', 'cv.e'), 'file')
            ck(db.get(('time', step)) == t, 'time', 'writes %s' % T.vstr(db.get(('time', step))))
            want = c(len([1 for (q, kind, i), on in active.items() if q == r and kind == 'faces' and on]))
            g = db.get(('var', step, 'EX_GLOBAL', 1, 0))
            ck(g == [want], 'number of contacts', 'writes %s, required %s' % ([T.vstr(v) for v in g or ()], T.vstr(want)))
            if not flat:
                continue
            for k in range(3):
                g = db.get(('var', step, 'EX_NODAL', nv.index('displacement_' + XYZ[k]) + 1, 0))
                if g is None or len(g) != len(flat):
                    ck(False, 'displacement ' + XYZ[k], 'is not written for every node')
                    continue
                bad = [(o, g[i - 1]) for i, o, p in zip(flat, order, start) if g[i - 1] != Poly.sym('s%d.%d%s%d.%d%s' % (step, r, o[0], o[1], o[2] + 1, XYZ[k])) - p[k]]
                ck(not bad, 'displacement ' + XYZ[k], '%s' % [(o, T.vstr(v)) for o, v in bad[:2]])
            g = db.get(('var', step, 'EX_NODAL', nv.index('contact_status') + 1, 0))
            bad = g is None or len(g) != len(flat) or [(o, T.vstr(g[i - 1])) for i, o in zip(flat, order) if g[i - 1] != (ONE if active[r, o[0], o[1]] else ZERO)]
            ck(not bad, 'contact status', '%s' % (bad,))
