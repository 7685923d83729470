"""Output database: what is written is the mesh and the data handed over."""
from .lib import *
from . import exo, P10

UNITS = ['nimble_exodus_output.cc', 'nimble_genesis_mesh.cc']
EO = 'nimble::ExodusOutput'
CLOBBER, WRITE = 8, 1
stopped = P10.stopped


def run(P, R):
    R.rule('mesh', 'the database holds the mesh of the run: sizes, coordinates, ids, blocks, connectivity and node sets, one-based', 60)
    R.rule('names', 'each variable is declared once under its name', 10)
    R.rule('value', 'each step stores the time and every array under the variable of its name, on its entity', 60)
    R.rule('errors', 'errors of the output library stop the run', 10)
    R.rule('calls', 'library calls use the open database, and read and write only the memory they are given', 8)
    R.rule('memory', 'buffers are released once, with the matching operator', 4)
    for nm in FILES:
        R.guard('mesh', nm, database, P, R, nm)
    R.guard('errors', 'errors', errors, P, R)
    R.guard('mesh', 'text', text, P, R)


S = 'original_global_id_map'
FILES = {
    'three blocks': dict(file=dict(nodesets=[(3, '', 2, 2), (1, 'top', 3, 3)], sidesets=[]),
                         glob=['energy'], node=['displacement_x', 'velocity_y'], elem={20: ['stress_xx', 'a'], 5: ['stress_xx']}, der={20: ['volume'], 5: ['volume', 'b']}),
    'partition': dict(file=dict(blocks=[(7, 'a', 'HEX', 1, 8), (2, '', 'HEX', 2, 8), (4, 'c', '', 0, 0)], node_maps=[S], elem_maps=[S], nodes=12, nodesets=[(8, 'x', 3, 3), (2, '', 0, 0), (6, '', 1, 1)], sidesets=[]),
                      glob=[], node=[], elem={7: ['zeta', 'alpha'], 2: ['alpha', 'zeta']}, der={7: [], 2: ['middle']}),
    'plane without output': dict(file=dict(dim=2, blocks=[(1, '', 'QUAD', 2, 4)], nodes=6, nodesets=[], sidesets=[]), glob=[], node=['d_x'], elem={1: ['a_label_of_thirty_two_characters']}, der={1: []}),
    'uneven sets': dict(file=dict(nodesets=[(3, '', 2, 0), (1, 'top', 3, 3), (9, '', 1, 0)], sidesets=[]), glob=['g0', 'g1', 'g2'], node=['n0', 'n1', 'n2'], elem={20: [], 5: []}, der={20: ['v'], 5: []}),
}


def mesh_memory(P, R, f, root):
    X, C, r = P10.read(P, None, f)
    return {(root if k[0] == 'this' else k[0], k[1]): v for k, v in C.mem.items()}


def setsof(f):
    """the node sets the mesh of f holds (a file's set may be held without distribution factors)"""
    return f.nodesets


def namemap(root, d):
    m = {(root, (('f', '#keys'),)): Val('keys', *[Poly.const(b) for b in sorted(d)]), (root, (('f', '#size'),)): Poly.const(len(d))}
    for b, l in d.items():
        m.update(vecmem(root, [T.strv(x) for x in l], (('i', Poly.const(b)),)))
    return m


def datamap(root, d, ne, tag):
    m = {(root, (('f', '#keys'),)): Val('keys', *[Poly.const(b) for b in sorted(d)]), (root, (('f', '#size'),)): Poly.const(len(d))}
    for b, l in d.items():
        m[(root, (('i', Poly.const(b)), ('f', '#size')))] = Poly.const(len(l))
        for i, x in enumerate(l):
            m.update(vecmem(root, [Poly.sym('%s.%d.%s.%d' % (tag, b, x, e)) for e in range(ne[b])], (('i', Poly.const(b)), ('i', Poly.const(i)))))
    return m


def setup(P, R, spec, fail=None):
    f = exo.File(**spec['file'])
    W = exo.Writer(fail)
    C = Chain(P, EO, R, intr=W.intr())
    # state after construction
    for n in ('CPU_word_size_', 'IO_word_size_'):
        C.mem[('this', (('f', n),))] = Poly.const(8)
    for n in ('dim_', 'num_nodes_', 'num_elements_', 'num_blocks_', 'num_node_sets_', 'num_side_sets_', 'exodus_write_count_'):
        C.mem[('this', (('f', n),))] = ZERO
    ctor(P, R, C)
    C.call('Initialize', [T.strv('out.e'), None], mem=mesh_memory(P, R, f, 'arg1'))
    m = mesh_memory(P, R, f, 'arg0')
    m.update(vecmem('arg1', [T.strv(x) for x in spec['glob']]))
    m.update(vecmem('arg2', [T.strv(x) for x in spec['node']]))
    m.update(namemap('arg3', spec['elem']))
    m.update(namemap('arg4', spec['der']))
    r = C.call('InitializeDatabase', mem=m)
    return f, W, C, r


def ctor(P, R, C):
    """initial state as the constructor of the class leaves it"""
    f = P.fn(EO + '::ExodusOutput')
    r = Run(P, f, args=[])
    for k, v in r.st.mem.items():
        if k[0] == 'this':
            C.mem[k] = v


def one(x):
    return x + ONE


def database(P, R, nm):
    spec = FILES[nm]
    fi, fs = P.fn(EO + '::InitializeDatabase'), P.fn(EO + '::WriteStep')
    wh, ws = where(fi, P), where(fs, P)
    f, W, C, r = setup(P, R, spec)
    db = W.db
    same = lambda rule, inst, got, want, w=wh: R.check(got == want, rule, '%s: %s' % (nm, inst), w, 'writes %s, required %s' % (got, want))

    def nums(rule, inst, got, want, w=wh):
        same(rule, 'entries of ' + inst, None if got is None else len(got), len(want), w)
        for i, x in enumerate(want):
            if got is not None and i < len(got):
                eq(R, rule, '%s: %s [%d]' % (nm, inst, i), w, got[i], x)
    R.check(not W.errors, 'calls', '%s: database' % nm, wh, '; '.join(W.errors[:3]))
    R.check(W.handle is None, 'calls', '%s: database is closed' % nm, wh, 'left open')
    R.check(not stopped(r), 'mesh', '%s: is written' % nm, wh, 'rejected')
    oob = [e for e in r.trace if e.kind == 'oob']
    R.check(not oob, 'calls', '%s: copies stay inside their buffers' % nm, oob[0].where() if oob else wh, 'a copy of %s characters into room for %s' % ((T.vstr(oob[0].val), T.vstr(oob[0].obj)) if oob else ('', '')))
    memory(P, R, nm, r, wh)
    file = db.pop('file', None)
    same('mesh', 'file', file, ('create', 'out.e', CLOBBER))
    full_blocks = [b for b in f.blocks if b[3] > 0]
    same('mesh', 'sizes', db.get('init'), [f.dim, f.nodes, f.elems, len(f.blocks), len(f.nodesets), 0])
    same('mesh', 'coordinate names', [x.lower() for x in db.get('coord names', [])], list('xyz')[:f.dim])
    for k in range(f.dim):
        nums('mesh', 'coordinate ' + 'xyz'[k], db.get(('coord', k)), [f.coord(i, k) for i in range(f.nodes)])
    nums('mesh', 'node ids', db.get(('map', 'EX_NODE_MAP')), [f.idmap('EX_NODE_MAP', i, bool(f.maps['EX_NODE_MAP'])) for i in range(f.nodes)])
    nums('mesh', 'element ids', db.get(('map', 'EX_ELEM_MAP')), [f.idmap('EX_ELEM_MAP', i, bool(f.maps['EX_ELEM_MAP'])) for i in range(f.elems)])
    same('mesh', 'block ids', db.get('block order'), [b[0] for b in f.blocks])
    same('mesh', 'block names', db.get(('names', 'EX_ELEM_BLOCK')), [b[1] or 'block_%d' % b[0] for b in f.blocks])
    for b in f.blocks:
        g = db.get(('block', b[0]))
        same('mesh', 'elements of block %d' % b[0], g and g[1:3], (b[3], b[4]))
        same('mesh', 'further parts of block %d' % b[0], g and g[3:], (0, 0, 0))
        if b[3]:
            same('mesh', 'element type of block %d' % b[0], (g or ('',))[0].rstrip(':')[:3].upper(), b[2][:3])
            nums('mesh', 'connectivity of block %d' % b[0], db.get(('conn', b[0])), [f.conn(b[0], i) for i in range(b[3] * b[4])])
        else:
            same('mesh', 'connectivity of block %d' % b[0], db.get(('conn', b[0]), []), [])
    same('mesh', 'node set ids', db.get(('sets', 'EX_NODE_SET'), []), [s[0] for s in f.nodesets])
    for s in f.nodesets:
        nums('mesh', 'node set %d' % s[0], db.get(('set', 'EX_NODE_SET', s[0])), [f.entry('EX_NODE_SET', s[0], i) for i in range(s[2])])
        nums('mesh', 'distribution factors of node set %d' % s[0], db.get(('dist', 'EX_NODE_SET', s[0])), [f.dist('EX_NODE_SET', s[0], i) for i in range(s[3])])
    # variables
    same('names', 'global variables', db.get(('vars', 'EX_GLOBAL'), []), spec['glob'])
    same('names', 'nodal variables', db.get(('vars', 'EX_NODAL'), []), spec['node'])
    ev = db.get(('vars', 'EX_ELEM_BLOCK'), [])
    want = sorted({x for d in (spec['elem'], spec['der']) for l in d.values() for x in l})
    same('names', 'element variables', sorted(ev), want)
    # steps
    ne = {b[0]: b[3] for b in full_blocks}
    before = dict(db)
    for step in (1, 2, 3):
        t = Poly.sym('t%d' % step)
        sfx = 's%d' % step
        m = vecmem('arg1', [Poly.sym('%s.%s' % (sfx, x)) for x in spec['glob']])
        m[('arg2', (('f', '#size'),))] = Poly.const(len(spec['node']))
        for i, x in enumerate(spec['node']):
            m.update(vecmem('arg2', [Poly.sym('%s.%s.%d' % (sfx, x, j)) for j in range(f.nodes)], (('i', Poly.const(i)),)))
        m.update(namemap('arg3', spec['elem']))
        m.update(datamap('arg4', spec['elem'], ne, sfx))
        m.update(namemap('arg5', spec['der']))
        m.update(datamap('arg6', spec['der'], ne, sfx + 'd'))
        W.db = {}
        W.errors = []
        r = C.call('WriteStep', [t] + [None] * 6, mem=m)
        db = W.db
        R.check(not W.errors, 'calls', '%s: step %d' % (nm, step), ws, '; '.join(W.errors[:3]))
        R.check(W.handle is None, 'calls', '%s: step %d is closed' % (nm, step), ws, 'left open')
        R.check(not stopped(r), 'value', '%s: step %d is written' % (nm, step), ws, 'rejected')
        memory(P, R, '%s step %d' % (nm, step), r, ws)
        same('value', 'file of step %d' % step, db.pop('file', None), ('open', 'out.e', WRITE), ws)
        eq(R, 'value', '%s: time of step %d' % (nm, step), ws, db.get(('time', step), Poly.sym('missing')), t)
        exp = {('time', step)}
        if spec['glob']:
            k = ('var', step, 'EX_GLOBAL', 1, 0)
            exp.add(k)
            nums('value', 'global values of step %d' % step, db.get(k), [Poly.sym('%s.%s' % (sfx, x)) for x in spec['glob']], ws)
        for i, x in enumerate(spec['node']):
            k = ('var', step, 'EX_NODAL', i + 1, 0)
            exp.add(k)
            nums('value', '%s in step %d' % (x, step), db.get(k), [Poly.sym('%s.%s.%d' % (sfx, x, j)) for j in range(f.nodes)], ws)
        for d, tag in ((spec['elem'], sfx), (spec['der'], sfx + 'd')):
            for b, l in d.items():
                for x in l:
                    k = ('var', step, 'EX_ELEM_BLOCK', ev.index(x) + 1 if x in ev else -1, b)
                    exp.add(k)
                    nums('value', '%s of block %d in step %d' % (x, b, step), db.get(k), [Poly.sym('%s.%d.%s.%d' % (tag, b, x, e)) for e in range(ne[b])], ws)
        same('value', 'nothing else in step %d' % step, sorted(map(str, set(db) - exp)), [], ws)


def memory(P, R, nm, r, wh):
    new, dele = {}, {}
    for e in r.trace:
        if e.kind == 'new':
            new[e.loc[0]] = e
        elif e.kind == 'delete' and isinstance(e.val, Val) and e.val.tag == 'ptr':
            root = e.val.a[0][0]
            R.check(root in new and root not in dele, 'memory', '%s: buffer of line %s is released once' % (nm, new[root].line if root in new else e.line), e.where(), 'released twice or not allocated here')
            if root in new:
                R.check(new[root].obj == e.obj, 'memory', '%s: buffer of line %s is released as it was allocated' % (nm, new[root].line), e.where(), 'new%s with delete%s' % (new[root].obj, e.obj))
            dele[root] = e
    lost = [e for k, e in new.items() if k not in dele]
    R.check(not lost, 'memory', '%s: every buffer is released' % nm, lost[0].where() if lost else wh, '%d buffers are never released' % len(lost))


def errors(P, R):
    spec = FILES['three blocks']
    fi, fs = P.fn(EO + '::InitializeDatabase'), P.fn(EO + '::WriteStep')
    f, W, C, r = setup(P, R, spec)
    n = len(W.calls)
    for k in range(n):
        nm, line = W.calls[k]
        _, W2, _, r = setup(P, R, spec, fail=k)
        R.check(stopped(r), 'errors', 'failure of ex_%s (call %d)' % (nm, k + 1), '%s:%s' % (P.rel(fi), line), 'the run goes on with a broken database')


def tokens(v):
    """blank separated words of a text; numbers written from terms stay terms"""
    parts = v.a[1] if isinstance(v, Val) and v.tag == 'op' and v.a[0] == 'concat' else [v]
    out, glue = [], False
    for p in parts:
        if isinstance(p, Val) and p.tag == 'str':
            t = p.a[0]
            if not t:
                continue
            w = t.split()
            if glue and not t[0].isspace() and w:
                out[-1] = (out[-1], w.pop(0))
            out.extend(w)
            glue = not t[-1].isspace()
        else:
            x = p.a[1][0] if isinstance(p, Val) and p.tag == 'op' and p.a[0] in ('fmt', 'to_string') else p
            if glue:
                out[-1] = (out[-1], x)
            else:
                out.append(x)
            glue = True
    return out


def text(P, R):
    """the text format: the mesh part is read back as the mesh it was written from, and data follow under their names"""
    fi, fs = P.fn(EO + '::InitializeDatabaseTextFile'), P.fn(EO + '::WriteStepTextFile')
    wh, ws = where(fi, P), where(fs, P)
    spec = FILES['three blocks']
    f = P10.TextFile()
    Z = Chain(P, P10.GM, R, files={'m.g.txt': P10.TEXT})
    Z.call('ReadTextFile', [T.strv('m.g')])
    mm = lambda root: {(root if k[0] == 'this' else k[0], k[1]): v for k, v in Z.mem.items()}
    C = Chain(P, EO, R)
    ctor(P, R, C)
    C.call('Initialize', [T.strv('out.e'), None], mem=mm('arg1'))
    m = mm('arg0')
    m.update(vecmem('arg1', [T.strv(x) for x in spec['glob']]))
    m.update(vecmem('arg2', [T.strv(x) for x in spec['node']]))
    m.update(namemap('arg3', spec['elem']))
    m.update(namemap('arg4', spec['der']))
    r = C.call('InitializeDatabaseTextFile', mem=m)
    w = [e for e in r.trace if e.kind == 'file']
    o = [e for e in r.trace if e.kind == 'open']
    R.check(len(w) == 1 and len(o) == 1 and o[0].q == 'new' and T.vstr(o[0].val) == '"out.e.txt"', 'calls', 'text database: one new file', wh, 'files %s' % [(e.q, T.vstr(e.val)) for e in o])
    if not w:
        return
    got = tokens(w[0].val)
    num = lambda x: Poly.const(Fraction(x)) if isinstance(x, str) and x.replace('.', '').replace('e', '').replace('-', '').isdigit() else x
    want = P10.TEXT.split()
    names = ['global_data', str(len(spec['glob']))] + spec['glob'] + ['node_data', str(len(spec['node']))] + spec['node']
    ev = sorted({x for d in (spec['elem'], spec['der']) for l in d.values() for x in l})
    want = want + names + ['element_data', str(len(ev))] + ev
    R.check(len(got) == len(want), 'mesh', 'text database: entries', wh, '%d words, required %d' % (len(got), len(want)))
    for i, (g, x) in enumerate(zip(got, want)):
        if isinstance(num(x), Poly) and isinstance(num(g), Poly):
            eq(R, 'mesh', 'text database: word %d' % i, wh, num(g), num(x))
        else:
            R.check(g == x, 'mesh', 'text database: word %d' % i, wh, 'writes %s, required %s' % (T.vstr(g) if not isinstance(g, str) else g, x))
    ne = {b[0]: b[3] for b in f.blocks}
    t = Poly.sym('t')
    m = vecmem('arg1', [Poly.sym('s.' + x) for x in spec['glob']])
    m[('arg2', (('f', '#size'),))] = Poly.const(len(spec['node']))
    for i, x in enumerate(spec['node']):
        m.update(vecmem('arg2', [Poly.sym('s.%s.%d' % (x, j)) for j in range(f.nodes)], (('i', Poly.const(i)),)))
    for a, b, d, tag in (('arg3', 'arg4', spec['elem'], 's'), ('arg5', 'arg6', spec['der'], 'sd')):
        m.update(namemap(a, d))
        m.update(datamap(b, d, ne, tag))
    r = C.call('WriteStepTextFile', [t] + [None] * 6, mem=m)
    w = [e for e in r.trace if e.kind == 'file']
    o = [e for e in r.trace if e.kind == 'open']
    R.check(len(w) == 1 and len(o) == 1 and o[0].q == 'append' and T.vstr(o[0].val) == '"out.e.txt"', 'calls', 'text step: appended to the file', ws, 'files %s' % [(e.q, T.vstr(e.val)) for e in o])
    if not w:
        return
    want = ['time', t, 'global_data_values'] + [Poly.sym('s.' + x) for x in spec['glob']] + ['node_data_values']
    want += [Poly.sym('s.%s.%d' % (x, j)) for x in spec['node'] for j in range(f.nodes)] + ['element_data_values']
    for b in (20, 5):
        for d, tag in ((spec['elem'], 's'), (spec['der'], 'sd')):
            for x in d[b]:
                want += [x, str(ev.index(x) + 1), str(b), str(ne[b])] + [Poly.sym('%s.%d.%s.%d' % (tag, b, x, e)) for e in range(ne[b])]
    got = tokens(w[0].val)
    R.check(len(got) == len(want), 'value', 'text step: entries', ws, '%d words, required %d' % (len(got), len(want)))
    for i, (g, x) in enumerate(zip(got, want)):
        R.check(g == x if not isinstance(x, Poly) else isinstance(num(g), Poly) and num(g) == x, 'value', 'text step: word %d' % i, ws, 'writes %s, required %s' % (T.vstr(g) if not isinstance(g, str) else g, T.vstr(x) if isinstance(x, Poly) else x))
