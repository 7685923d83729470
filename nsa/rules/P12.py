"""Field labels: one component table, one prefix convention, and requested output resolved to exactly the requested data."""
from .lib import *

UNITS = ['nimble_model_data.cc', 'nimble_data_utils.cc', 'nimble_model_data_base.cc']
NS = 'nimble::'
MD = NS + 'ModelData'
TAB = {('SCALAR', 2): [''], ('SCALAR', 3): [''], ('VECTOR', 2): ['_x', '_y'], ('VECTOR', 3): ['_x', '_y', '_z'],
       ('SYMMETRIC_TENSOR', 2): ['_xx', '_yy', '_xy'], ('SYMMETRIC_TENSOR', 3): ['_xx', '_yy', '_zz', '_xy', '_yz', '_zx'],
       ('FULL_TENSOR', 2): ['_xx', '_yy', '_xy', '_yx'], ('FULL_TENSOR', 3): ['_xx', '_yy', '_zz', '_xy', '_yz', '_zx', '_yx', '_zy', '_xz'],
       ('LENGTH_5', 3): ['_1', '_2', '_3', '_4', '_5']}


def run(P, R):
    R.rule('length', 'the number of entries of a quantity is the number of its component labels', 9)
    R.rule('component', 'component labels follow the storage order of tensors and are the same in both label functions', 30)
    R.rule('prefix', 'adding, detecting, reading and removing the integration point prefix agree', 20)
    R.rule('field', 'a field is registered once, found by its label, and stored with its full length', 10)
    R.rule('output', 'requested output labels resolve to the requested components, in the order requested', 10)
    R.rule('value', 'each output array receives the component its label names', 20)
    R.guard('component', 'labels', labels, P, R)
    R.guard('prefix', 'prefix', prefix, P, R)
    R.guard('field', 'ModelData', model, P, R)


def labels(P, R):
    fl, fs, f1 = P.fn(NS + 'LengthToInt'), P.fn(NS + 'GetComponentLabels'), P.fn(NS + 'GetComponentLabel')
    for f in (fl, fs, f1):
        R.used(f)
    for (ln, dim), want in TAB.items():
        L = enum(P, ln)
        r = Run(P, fl, args=[L, Poly.const(dim)])
        eq(R, 'length', '%s %dD' % (ln, dim), where(fl, P), T.to_num(r.ret), Poly.const(len(want)))
        r = Run(P, fs, args=[T.strv('q'), L, Poly.const(dim)])
        got = strvec(r, r.ret.a[0][0], r.ret.a[0][1]) if isinstance(r.ret, Val) and r.ret.tag == 'obj' else None
        if got is None:
            R.und('component', '%s %dD' % (ln, dim), where(fs, P), 'label list not resolved')
            continue
        for k, w in enumerate(want):
            R.check(k < len(got) and got[k] == 'q' + w, 'component', 'label %d of %s %dD' % (k, ln, dim), where(fs, P), '%s, required q%s' % (got[k] if k < len(got) else 'missing', w))
        R.check(len(got) == len(want), 'component', 'labels of %s %dD' % (ln, dim), where(fs, P), '%d labels' % len(got))
        if ln.startswith('LENGTH') or ln == 'SCALAR' and dim == 2:
            continue
        for k, w in enumerate(want):
            r = Run(P, f1, args=[T.strv('q'), L, Poly.const(dim), Poly.const(k), Poly.const(12)])
            R.check(T.vstr(r.ret) == '"ipt12_q%s"' % w, 'component', 'single label %d of %s %dD' % (k, ln, dim), where(f1, P), '%s, required ipt12_q%s' % (T.vstr(r.ret), w))
        if ln != 'SCALAR':
            r = Run(P, f1, args=[T.strv('q'), L, Poly.const(dim), Poly.const(9), Poly.const(1)])
            R.check(any(e.kind == 'throw' for e in r.trace) and not isinstance(r.ret, Val) or r.ret is T.VOID or any(e.kind == 'throw' for e in r.trace), 'component', 'component out of range of %s %dD is rejected' % (ln, dim), where(f1, P), 'no rejection')
    for bad in (1, 4):
        r = Run(P, fl, args=[enum(P, 'VECTOR'), Poly.const(bad)])
        R.check(any(e.kind == 'throw' for e in r.trace), 'length', 'dimension %d is rejected' % bad, where(fl, P), 'no rejection')


def prefix(P, R):
    fa, fr, fh, fn = (P.fn(NS + x) for x in ('AddIntegrationPointPrefix', 'RemoveIntegrationPointPrefix', 'HasIntegrationPointPrefix', 'LabelToIntegrationPointNumber'))
    for f in (fa, fr, fh, fn):
        R.used(f)
    # names with digits of their own, with digits next to the prefix, and containing the prefix text
    for l, ns in (('stress_xx', (1, 8, 9, 10, 27)), ('slip_resistance_1', (2, 14)), ('q2_7_x', (3, 11)), ('4_alpha', (1, 12)), ('ipt_id', (1, 8)), ('a12', (5, 22)), ('ipt03_b', (6, 16))):
        for n in ns:
            r = Run(P, fa, args=[T.strv(l), Poly.const(n)])
            w = 'ipt%02d_%s' % (n, l)
            R.check(T.vstr(r.ret) == '"%s"' % w, 'prefix', 'add %d to %s' % (n, l), where(fa, P), '%s, required %s' % (T.vstr(r.ret), w))
            r = Run(P, fr, args=[T.strv(w)])
            R.check(T.vstr(r.ret) == '"%s"' % l, 'prefix', 'remove %d from %s' % (n, w), where(fr, P), '%s' % T.vstr(r.ret))
            r = Run(P, fn, args=[T.strv(w)])
            eq(R, 'prefix', 'number of %s' % w, where(fn, P), T.to_num(r.ret), Poly.const(n))
            r = Run(P, fh, args=[T.strv(w)])
            R.check(T.to_bool(r.ret) == TRUE, 'prefix', 'has prefix: %s' % w, where(fh, P), T.vstr(r.ret))
    for l in ('stress_xx', 'velocity', 'x_ipt01_y', 'slip_1', 'q2_7'):
        r = Run(P, fr, args=[T.strv(l)])
        R.check(T.vstr(r.ret) == '"%s"' % l, 'prefix', 'unprefixed %s is kept' % l, where(fr, P), T.vstr(r.ret))
        r = Run(P, fh, args=[T.strv(l)])
        R.check(T.to_bool(r.ret) == FALSE, 'prefix', 'no prefix on %s' % l, where(fh, P), T.vstr(r.ret))


NNODE = 3


def model(P, R):
    C = Chain(P, MD, R)
    fa = P.fn(MD + '::AllocateNodeData')
    wh = where(fa, P)
    V, S = enum(P, 'VECTOR'), enum(P, 'SCALAR')
    ids = {}
    for lab, L in (('mass', S), ('displacement', V), ('velocity', V)):
        r = C.call('AllocateNodeData', [L, T.strv(lab), Poly.const(NNODE)])
        ids[lab] = T.to_num(r.ret)
    vals = [v.as_int() for v in ids.values()]
    R.check(None not in vals and len(set(vals)) == 3, 'field', 'fields get distinct identifiers', wh, 'identifiers %s' % vals)
    r = C.call('AllocateNodeData', [V, T.strv('velocity'), Poly.const(NNODE)])
    eq(R, 'field', 'a known label is registered once', wh, T.to_num(r.ret), ids['velocity'])
    r = Chain(P, MD, R, mem=C.mem).call('AllocateNodeData', [S, T.strv('velocity'), Poly.const(NNODE)])
    R.check(any(e.kind == 'call' and e.q == 'abort' or e.kind == 'throw' for e in r.trace), 'field', 'a label reused for another length is rejected', wh, 'accepted')
    fg = P.fn(MD + '::GetFieldId')
    R.used(fg)
    for lab in ids:
        r = C.call('GetFieldId', [T.strv(lab)])
        eq(R, 'field', 'identifier of %s' % lab, where(fg, P), T.to_num(r.ret), ids[lab])
    r = C.call('GetFieldId', [T.strv('nothing')])
    eq(R, 'field', 'unknown field', where(fg, P), T.to_num(r.ret), Poly.const(-1))
    # values: node j, component k of field F
    cells_ = {}
    for lab, m in (('mass', 1), ('displacement', 3), ('velocity', 3)):
        r = C.call('GetNodeData', [ids[lab]], pred=lambda f: f['params'][0]['t'].startswith('int'))
        p = r.ret
        root, path = p.a[0]
        base = path[:-1] if path[-1][0] == 'i' else path
        n = r.I.size_of(r.st, (root, base), '')
        eq(R, 'field', 'storage of %s' % lab, wh, n, Poly.const(NNODE * m))
        for j in range(NNODE):
            for k in range(m):
                C.mem[(root, base + (('i', Poly.const(j * m + k)),))] = Poly.sym('%s.%d.%d' % (lab, j, k))
    for lab, m, acc in (('mass', 1, 'GetScalarNodeData'), ('velocity', 3, 'GetVectorNodeData')):
        f = P.fn(MD + '::' + acc)
        R.used(f)
        r = C.call(acc, [ids[lab]])
        view(P, R, r, lab, m, where(f, P))
    # element data
    NE = 2
    decl = [('ipt01_F', 'FULL_TENSOR'), ('ipt01_S', 'SYMMETRIC_TENSOR'), ('ipt01_a', 'SCALAR'), ('ipt02_F', 'FULL_TENSOR'), ('ipt02_S', 'SYMMETRIC_TENSOR'), ('ipt02_a', 'SCALAR')]
    decl2 = [('ipt01_S', 'SYMMETRIC_TENSOR'), ('ipt02_S', 'SYMMETRIC_TENSOR')]
    comp = {}
    for b, dl in ((7, decl), (3, decl2)):
        m = {('arg1', (('f', '#size'),)): Poly.const(len(dl))}
        for i, (l, t) in enumerate(dl):
            m[('arg1', (('i', Poly.const(i)), ('f', 'first')))] = T.strv(l)
            m[('arg1', (('i', Poly.const(i)), ('f', 'second')))] = enum(P, t)
        C.call('DeclareElementData', [Poly.const(b), None], mem=m)
        comp[b] = [l + s for l, t in dl for s in TAB[t, 3]]
    ne = {7: NE, 3: 1}
    m = {('arg0', (('f', '#keys'),)): Val('keys', Poly.const(3), Poly.const(7)), ('arg0', (('f', '#size'),)): Poly.const(2)}
    for b in ne:
        m[('arg0', (('i', Poly.const(b)),))] = Poly.const(ne[b])
    fae = P.fn(MD + '::AllocateElementData')
    r = C.call('AllocateElementData', mem=m)
    for b in (7, 3):
        r = C.call(NS + 'ModelDataBase::GetElementDataLabels')
        loc = r.ret.a[0]
        got = strvec(r, loc[0], loc[1] + (('i', Poly.const(b)),))
        R.check(got == comp[b], 'field', 'element components of block %d' % b, where(fae, P), 'components %s' % (got,))
        for acc, tag in (('GetElementDataOld', 'n'), ('GetElementDataNew', 'np1')):
            r = C.call(acc, [Poly.const(b)])
            root, path = r.ret.a[0]
            eq(R, 'field', 'element storage %s of block %d' % (tag, b), where(fae, P), r.I.size_of(r.st, (root, path), ''), Poly.const(ne[b] * len(comp[b])))
            for e in range(ne[b]):
                for k, l in enumerate(comp[b]):
                    C.mem[(root, path + (('i', Poly.const(e * len(comp[b]) + k)),))] = Poly.sym('%s.%s.%d.%s' % (tag, b, e, l))
    base = dict(C.mem)
    # output requests
    fo = P.fn(MD + '::SpecifyOutputFields')
    R.used(fo)
    requests = [
        ('mass velocity_y displacement', ['mass', 'velocity_y', 'displacement_x', 'displacement_y', 'displacement_z'], {}, {}),
        ('S_zx volume F', [], {7: [], 3: []}, {7: ['S_zx', 'volume'] + ['F' + s for s in TAB['FULL_TENSOR', 3]], 3: ['S_zx', 'volume']}),
        ('ipt02_S_yz ipt01_a', [], {7: ['ipt02_S_yz', 'ipt01_a'], 3: ['ipt02_S_yz']}, {7: [], 3: []}),
        ('ipt01_S a', [], {7: ['ipt01_S' + s for s in TAB['SYMMETRIC_TENSOR', 3]], 3: ['ipt01_S' + s for s in TAB['SYMMETRIC_TENSOR', 3]]}, {7: ['a'], 3: []}),
    ]
    for req, nodal, elem, der in requests:
        D = Chain(P, MD, R, mem=base)
        D.call('SpecifyOutputFields', [T.strv(req)])
        r = D.call(NS + 'ModelDataBase::GetNodeDataLabelsForOutput')
        got = strvec(r, *r.ret.a[0])
        R.check(got == nodal, 'output', 'nodal labels of "%s"' % req, where(fo, P), 'nodal output %s' % (got,))
        for kind, acc, want in (('element', 'GetElementDataLabelsForOutput', elem), ('derived', 'GetDerivedElementDataLabelsForOutput', der)):
            r = D.call(NS + 'ModelDataBase::' + acc)
            loc = r.ret.a[0]
            for b in want:
                got = strvec(r, loc[0], loc[1] + (('i', Poly.const(b)),))
                R.check(got == want[b], 'output', '%s labels of "%s" on block %d' % (kind, req, b), where(fo, P), '%s output %s' % (kind, got))
        if nodal:
            fv = P.fn(MD + '::GetNodeDataForOutput')
            r = D.call('GetNodeDataForOutput', mem={('arg0', (('f', '#size'),)): ZERO})
            for i, l in enumerate(nodal):
                nm, k = (l, 0) if l == 'mass' else (l[:-2], 'xyz'.index(l[-1]))
                for j in range(NNODE):
                    eq(R, 'value', 'node %d of %s' % (j, l), where(fv, P), T.to_num(r.at(('arg0', (('i', Poly.const(i)),)), j)), Poly.sym('%s.%d.%d' % (nm, j, k)))
                eq(R, 'value', 'entries of %s' % l, where(fv, P), r.I.size_of(r.st, ('arg0', (('i', Poly.const(i)),)), ''), Poly.const(NNODE))
        if any(elem.values()):
            fv = P.fn(MD + '::GetElementDataForOutput')
            r = D.call('GetElementDataForOutput', mem={('arg0', (('f', '#size'),)): ZERO, ('arg0', (('f', '#keys'),)): Val('keys')})
            for b in elem:
                for i, l in enumerate(elem[b]):
                    for e in range(ne[b]):
                        eq(R, 'value', 'block %d element %d of %s' % (b, e, l), where(fv, P),
                           T.to_num(r.at(('arg0', (('i', Poly.const(b)), ('i', Poly.const(i)))), e)), Poly.sym('np1.%s.%d.%s' % (b, e, l)))
    D = Chain(P, MD, R, mem=base)
    r = D.call('SpecifyOutputFields', [T.strv('velocity bogus')])
    R.check(any(e.kind == 'call' and e.q == 'abort' or e.kind == 'throw' for e in r.trace), 'output', 'an unknown label is rejected', where(fo, P), 'accepted')


def view(P, R, r, lab, m, wh):
    """component k of node j, addressed as the view does, is that of the field"""
    v = r.ret
    if not (isinstance(v, Val) and v.tag == 'obj'):
        R.und('field', 'view of %s' % lab, wh, 'result is %s' % T.vstr(v))
        return
    root, path = v.a[0]
    get = lambda f, i: T.to_num(r.I.load(r.st, (root, path + (('f', f), ('i', Poly.const(i)))), 'int'))
    p = r.I.load(r.st, (root, path + (('f', 'data_'),)), 'double *')
    eq(R, 'field', 'nodes of %s' % lab, wh, get('len_', 0), Poly.const(NNODE))
    for j in range(NNODE):
        for k in range(m):
            x = Poly.const(j) * get('stride_', 0)
            if m > 1:
                x = x + Poly.const(k) * get('stride_', 1)
            got = r.I.load(r.st, r.I.index(p, x, None), 'double')
            eq(R, 'field', 'view of %s (%d,%d)' % (lab, j, k), wh, T.to_num(got), Poly.sym('%s.%d.%d' % (lab, j, k)))
