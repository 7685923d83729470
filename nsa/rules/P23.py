"""Contact mechanics: projection on a triangle, the entities that carry it, and the forces it gives."""
import os
from .lib import *
from ..core import views, facts
from . import P15, P18, P21
from .P21 import CM, CE, Run0, X_, PRIM, SEC, at

UNITS = ['nimble_contact_manager.cc', 'nimble_contact_entity.cc', 'nimble_genesis_mesh.cc']
EXTRA = [os.path.join(facts.NSA, 'witness', 'contact.cc')]
XYZ = 'xyz'


def run(P, R):
    R.rule('project', 'a node is projected on the plane of a triangle: barycentric coordinates, normal distance, unit normal, and whether it lies inside', 12)
    R.rule('entity', 'an entity follows its nodes: coordinates, centre and a box around it', 10)
    R.rule('force', 'a penetrating node and its face get opposite forces, spread over the nodes of the face by the contact point', 10)
    R.rule('step', 'a contact step displaces the surfaces, clears the forces, enforces, and hands every node its force once', 10)
    R.guard('project', 'projection', project, P, R)
    R.guard('entity', 'entity', entity, P, R)
    R.guard('entity', 'packing', pack, P, R)
    R.guard('entity', 'copies', copies, P, R)
    R.guard('force', 'force', force, P, R)
    R.guard('step', 'step', step, P, R)


# ------------------------------------------------------------------ entities
def S(n):
    return Poly.sym(n)


def pts(tag, n):
    return [[S('%s%d%s' % (tag, i, k)) for k in XYZ] for i in range(n)]


def make(P, R, root, kind, p, length, nodes, fict=None, gid=17, lid=3):
    """memory of an entity made by the constructor"""
    f = P.fn(CE + '::ContactEntity', 8)
    R.used(f)
    co = [x for q in p for x in q]
    mem = {('co', (('i', Poly.const(i)),)): v for i, v in enumerate(co)}
    mem.update({('fi', (('i', Poly.const(i)),)): c(v) for i, v in enumerate(fict or [])})
    mem[('this', (('f', '#type'),))] = T.strv(CE)
    z = (('i', ZERO),)
    r = Run0(P, f, [enum(P, kind), c(gid), c(lid), T.ptr(('co', z)), length, c(nodes[0]), c(nodes[1] if len(nodes) > 1 else 0), T.ptr(('fi', z)) if fict else Val('null')], mem, 7000, machine=views.Interp, peel=True)
    return {(root, k[1]): v for k, v in r.st.mem.items() if k[0] == 'this'}


def node_(P, R, root, p, length=None, n=7, **kw):
    return make(P, R, root, 'NODE', [p], length if length is not None else S('nlen'), [n], **kw)


def tri_(P, R, root, p, length=None, nodes=(2, 4), fict=(1, 2, 4, 5), **kw):
    return make(P, R, root, 'TRIANGLE', p, length if length is not None else S('len'), nodes, fict, **kw)


def dot(a, b):
    return sum_([x * y for x, y in zip(a, b)])


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def bary(p, q):
    """barycentric coordinates of the projection of q on the triangle p, signed distance, unit normal"""
    u, v, w = sub(p[1], p[0]), sub(p[2], p[0]), sub(q, p[0])
    n = cross(u, v)
    nn = dot(n, n)
    a3 = dot(cross(u, w), n) * nn.recip()
    a2 = dot(cross(w, v), n) * nn.recip()
    s = T.app('sqrt', nn)
    return [ONE - a2 - a3, a2, a3], dot(w, n) * s.recip(), [x * s.recip() for x in n]


import random as _random


def sample(where_, extra=lambda g: {}):
    """numbers for a triangle t0..t2, a node q0 and a length; the projection of the node lies where_ says"""
    def f(seed):
        g = _random.Random('%s %s' % (where_, seed))
        while True:
            p = [[g.uniform(-2, 2) for _ in XYZ] for _ in range(3)]
            u, v = [p[1][k] - p[0][k] for k in range(3)], [p[2][k] - p[0][k] for k in range(3)]
            n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            l = sum(x * x for x in n) ** .5
            if l > .5:
                break
        if where_ == 'inside':
            a = [g.uniform(.05, 1) for _ in range(3)]
            a = [x / sum(a) for x in a]
        elif where_ == 'edge':
            t, k = g.uniform(.1, .9), g.randrange(3)
            a = [0.0] * 3
            a[k], a[(k + 1) % 3] = t, 1 - t
        else:
            while True:
                a = [g.uniform(-1.5, 2) for _ in range(2)]
                a.append(1 - sum(a))
                if min(a) < -.1:
                    break
            g.shuffle(a)
        h = g.uniform(-1, 1)
        q = [sum(a[i] * p[i][k] for i in range(3)) + h * n[k] / l for k in range(3)]
        d = {'t%d%s' % (i, x): p[i][k] for i in range(3) for k, x in enumerate(XYZ)}
        d.update({'q0%s' % x: q[k] for k, x in enumerate(XYZ)})
        d.update(len=g.uniform(.2, 1.2), tol=1e-9)
        d.update(extra(g))
        return d
    return f


def project(P, R):
    p, q = pts('t', 3), pts('q', 1)[0]
    ents = lambda: {**node_(P, R, 'arg0', q), **tri_(P, R, 'arg1', p)}
    al, gap, nrm = bary(p, q)
    tol, length = S('tol'), S('len')
    inside = T.b_and(*[x for a in al for x in (T.b_gt0(a + tol), T.b_gt0(ONE + tol - a))])
    kinds = {k: enum(P, k) for k in ('FACE', 'NODE_OR_EDGE', 'UNKNOWN')}
    z = (('i', ZERO),)

    # the projection the searches use
    f = P.fn(CM + '::Projection')
    R.used(f)
    wh = where(f, P)
    r = Run0(P, f, [None, None, None, None, T.ptr(('n', z)), T.ptr(('b', z)), tol], ents(), 0, machine=views.Interp, peel=True)
    num = lambda l, t='double': T.to_num(r.I.load(r.st, l, t))
    R.check(not P18.stop(r), 'project', 'completes', wh, 'stops')
    got = r.I.load(r.st, ('arg2', ()), 'bool')
    want = T.b_and(inside, T.b_gt0(ZERO - gap), T.b_gt0(gap + length))
    for w in ('inside', 'outside', 'edge'):
        eq(R, 'project', 'inside flag, %s' % w, wh, got, want, syms=sample(w), n=40)
    pen = lambda g: {}
    eq(R, 'project', 'distance', wh, num(('arg3', ())), gap, syms=sample('inside'), n=16)
    for k in range(3):
        eq(R, 'project', 'normal %s' % XYZ[k], wh, num(at(('n', ()), k)), nrm[k], syms=sample('inside'), n=16)
        eq(R, 'project', 'barycentric %d' % (k + 1), wh, num(at(('b', ()), k)), al[k], syms=sample('inside'), n=16)
    nowrites_outside(R, 'project', 'changes no entity', r, ['arg2', 'arg3', 'n', 'b'] + sorted(r.I.locals), wh)

    # the older one
    f = P.fn(CM + '::SimpleClosestPointProjectionSingle')
    R.used(f)
    wh = where(f, P)
    r = Run0(P, f, [None, None, T.ptr(('t', z)), T.ptr(('c', z)), None, T.ptr(('n', z)), tol], ents(), 0, machine=views.Interp, peel=True)
    ty = num(('t', z), 'int')
    for w in ('inside', 'outside', 'edge'):
        eq(R, 'project', 'simple: kind, %s' % w, wh, ty, T.ite(inside, kinds['FACE'], kinds['UNKNOWN']), syms=sample(w), n=40)
    eq(R, 'project', 'simple: distance', wh, num(('arg4', ())), gap, syms=sample('inside'), n=16)
    for k in range(3):
        eq(R, 'project', 'simple: normal %s' % XYZ[k], wh, num(at(('n', ()), k)), nrm[k], syms=sample('inside'), n=16)
        eq(R, 'project', 'simple: point %s' % XYZ[k], wh, num(('c', z + (('f', 'coords_'), ('i', c(k))))), sum_([al[i] * p[i][k] for i in range(3)]), syms=sample('inside'), n=16)

    # closest point of the triangle
    f = P.fn(CM + '::ClosestPointProjection')
    R.used(f)
    wh = where(f, P)
    mem = {}
    for i in range(2):
        for k, v in {**node_(P, R, 'N', pts('q', 2)[i]), **tri_(P, R, 'F', pts('t', 6)[3 * i:3 * i + 3])}.items():
            mem[(k[0], (('i', c(i)),) + k[1])] = v
    r = Run0(P, f, [T.ptr(('N', z)), T.ptr(('F', z)), T.ptr(('c', z)), T.ptr(('t', z)), c(2)], mem, 0, machine=views.Interp, peel=True)
    num = lambda l, t='double': T.to_num(r.I.load(r.st, l, t))
    far = [e for e in r.trace if e.kind == 'write' and e.loc[0] in ('c', 't') and e.loc[1] and e.loc[1][0][0] == 'i' and not (isinstance(e.loc[1][0][1], Poly) and e.loc[1][0][1].as_int() in (0, 1))]
    R.check(not far, 'project', 'closest: two pairs, two results', wh, 'writes a result beyond the pairs given')
    for i in range(2):
        p, q = pts('t', 6)[3 * i:3 * i + 3], pts('q', 2)[i]
        al, gap, nrm = bary(p, q)
        pt, ty = closest(p, q, al, kinds)

        def shifted(w):
            base = sample(w)
            return lambda seed: {k if k in ('len', 'tol') else k[0] + str(int(k[1]) + (i * 3 if k[0] == 't' else i)) + k[2:]: v for k, v in base(seed).items()}
        for w in ('inside', 'outside'):
            eq(R, 'project', 'closest %d: kind, %s' % (i, w), wh, num(('t', (('i', c(i)),)), 'int'), ty, syms=shifted(w), n=40)
            for k in range(3):
                eq(R, 'project', 'closest %d: %s, %s' % (i, XYZ[k], w), wh, num(('c', (('i', c(i)), ('f', 'coords_'), ('i', c(k))))), pt[k], syms=shifted(w), n=40)


def closest(p, q, al, kinds):
    """nearest point of a triangle to q"""
    ins = T.b_and(*[T.b_gt0(a) for a in al])
    best, pt = None, None
    cand = [(TRUE, x) for x in p]
    for i in range(3):
        a, b = p[i], p[(i + 1) % 3]
        d = sub(b, a)
        t = dot(sub(q, a), d) * dot(d, d).recip()
        cand.append((T.b_and(T.b_gt0(t), T.b_gt0(ONE - t)), [x + t * y for x, y in zip(a, d)]))
    for ok, x in cand:
        d = sub(x, q)
        d = dot(d, d)
        if best is None:
            best, pt = d, x
            continue
        w = T.b_and(ok, T.b_gt0(best - d))
        pt = [T.ite(w, y, o) for y, o in zip(x, pt)]
        best = T.ite(w, d, best)
    face = [sum_([al[i] * p[i][k] for i in range(3)]) for k in range(3)]
    return [T.ite(ins, a, b) for a, b in zip(face, pt)], T.ite(ins, kinds['FACE'], kinds['NODE_OR_EDGE'])


# ------------------------------------------------------------------ geometry of an entity
def low(xs, sign):
    o = xs[0]
    for x in xs[1:]:
        o = T.ite(T.b_gt0((o - x) * Poly.const(sign)), x, o)
    return o


def geometry(R, tag, wh, num, root, p, length, n=8):
    for k, x in enumerate(XYZ):
        xs = [q[k] for q in p]
        infl = length * c(T.Fraction(15, 100))
        eq(R, 'entity', tag + 'box low ' + x, wh, num(root + ('bounding_box_%s_min_' % x,)), low(xs, 1) - infl, n=n)
        eq(R, 'entity', tag + 'box high ' + x, wh, num(root + ('bounding_box_%s_max_' % x,)), low(xs, -1) + infl, n=n)
        eq(R, 'entity', tag + 'centre ' + x, wh, num(root + ('centroid_', 'coords_', k)), sum_(xs) * c(len(xs)).recip(), n=n)
        for i, q in enumerate(p):
            eq(R, 'entity', tag + 'point %d %s' % (i + 1, x), wh, num(root + ('coord_%d_%s_' % (i + 1, x),)), q[k], n=n)


def fields(r):
    def num(path, t='double'):
        return T.to_num(r.I.load(r.st, (path[0], tuple(x if isinstance(x, tuple) else ('f', x) if isinstance(x, str) else ('i', c(x)) for x in path[1:])), t))
    return num


def entity(P, R):
    f = P.fn(CE + '::SetCoordinates', pred=lambda f: 'View' not in f['params'][0]['t'])
    bb = P.fn(CE + '::SetBoundingBox')
    R.used(f)
    wh = where(f, P)
    z = (('i', ZERO),)
    crd = lambda n: [S('c%d%s' % (n, k)) for k in XYZ]
    co = {('co', (('i', c(3 * n + k)),)): crd(n)[k] for n in range(9) for k in range(3)}
    mean = lambda ns: [sum_([crd(n)[k] for n in ns]) * c(4).recip() for k in range(3)]
    for tag, mem, p in [('node ', node_(P, R, 'this', pts('q', 1)[0]), [crd(7)]),
                        ('triangle ', tri_(P, R, 'this', pts('t', 3)), [crd(2), crd(4), mean((1, 2, 4, 5))]),
                        ('other triangle ', tri_(P, R, 'this', pts('t', 3), nodes=(8, 3), fict=(3, 0, 6, 8)), [crd(8), crd(3), mean((3, 0, 6, 8))])]:
        r = Run0(P, f, [T.ptr(('co', z))], {**co, **mem}, 0, machine=views.Interp, peel=True)
        geometry(R, tag + 'moved: ', wh, fields(r), ('this',), p, S('nlen' if tag == 'node ' else 'len'))
        R.check(not [e for e in r.trace if e.kind == 'write' and e.loc[0] == 'co'], 'entity', tag + 'moved: changes no coordinate', wh, 'writes the coordinates')
    # as constructed
    g = P.fn(CE + '::ContactEntity', 8)
    for tag, kind, p in (('node ', 'NODE', pts('q', 1)), ('triangle ', 'TRIANGLE', pts('t', 3))):
        mem = node_(P, R, 'this', p[0]) if kind == 'NODE' else tri_(P, R, 'this', p)
        r = Run0(P, P.fn(CE + '::local_id'), [], mem, 0, machine=views.Interp)
        geometry(R, tag + 'made: ', where(g, P), fields(r), ('this',), p, S('nlen' if kind == 'NODE' else 'len'))
        num = fields(r)
        R.check(r.ret == c(3) and num(('this', 'contact_entity_global_id_'), 'int') == c(17) and num(('this', 'entity_type_'), 'int') == enum(P, kind) and all(num(('this', 'force_%d_%s_' % (i, x))) == ZERO for i in (1, 2, 3) for x in XYZ),
                'entity', tag + 'made: numbers and no force', where(g, P), 'differs')
        h = P.fn(CE + '::ExportGeometryInto')
        R.used(h)
        r = Run0(P, h, [None], {**mem, **node_(P, R, 'arg0', pts('z', 1)[0], S('other'), n=1)}, 0, machine=views.Interp, peel=True)
        num = fields(r)
        same = ['entity_type_', 'num_nodes_', 'char_len_'] + ['bounding_box_%s_%s_' % (x, m) for x in XYZ for m in ('min', 'max')] + ['coord_%d_%s_' % (i, x) for i in range(1, len(p) + 1) for x in XYZ]
        for a in same:
            R.check(T.to_num(num(('arg0', a))) == T.to_num(num(('this', a))), 'entity', tag + 'exported: ' + a, where(h, P), 'differs')


def copies(P, R):
    """the centre of an entity and its copies are the three numbers"""
    v3 = [S('v' + k) for k in XYZ]
    V = CE + '::vertex'
    for name, pred, args in ((V + '::vertex', lambda f: len(f['params']) == 1, [None]), (V + '::operator=', None, [None])):
        f = P.fn(name, None, pred)
        R.used(f)
        r = Run0(P, f, args, {('arg0', (('f', 'coords_'), ('i', c(k)))): v3[k] for k in range(3)}, 0, machine=views.Interp, peel=True)
        g = fields(r)
        for k in range(3):
            eq(R, 'entity', 'copy of a centre: %s %s' % (name[len(V) + 2:], XYZ[k]), where(f, P), g(('this', 'coords_', k)), v3[k])
    f = P.fn(CE + '::centroid')
    R.used(f)
    r = Run0(P, f, [], {('this', (('f', 'centroid_'), ('f', 'coords_'), ('i', c(k)))): v3[k] for k in range(3)}, 0, machine=views.Interp, peel=True)
    l = r.ret.a[0]
    R.check([T.to_num(r.I.load(r.st, (l[0], l[1] + (('f', 'coords_'), ('i', c(k)))), 'double')) for k in range(3)] == v3, 'entity', 'centre', where(f, P), 'differs')
    for x in XYZ:
        for m in ('min', 'max'):
            f = P.fn(CE + '::get_%s_%s' % (x, m))
            R.used(f)
            r = Run0(P, f, [], {('this', (('f', 'bounding_box_%s_%s_' % (x, m)),)): S('v')}, 0, machine=views.Interp, peel=True)
            R.check(r.ret == S('v'), 'entity', 'box %s %s' % (x, m), where(f, P), 'differs')


# ------------------------------------------------------------------ forces
def expected(nodes, fict, node, N, Fv, old):
    """forces on all nodes: Fv on the node, -Fv spread by N over the face"""
    out = {n: list(v) for n, v in old.items()}
    for k in range(3):
        out[node][k] = out[node][k] + Fv[k]
        for n, w in list(zip(nodes, N)) + [(n, N[2] * c(4).recip()) for n in fict]:
            out[n][k] = out[n][k] - w * Fv[k]
    return out


def force(P, R):
    p, q = pts('t', 3), pts('q', 1)[0]
    z = (('i', ZERO),)
    pen, gap = S('pen'), S('gap')
    nv, bc, cp = [S('n' + k) for k in XYZ], [S('b%d' % i) for i in range(3)], [S('cp' + k) for k in XYZ]
    old = {n: [S('F%d%s' % (n, k)) for k in XYZ] for n in range(9)}
    arr = lambda root, v: {(root, (('i', c(i)),)): x for i, x in enumerate(v)}
    cfg = [((2, 4), (1, 2, 4, 5), 7), ((8, 3), (3, 0, 6, 8), 5), ((5, 1), (1, 2, 4, 5), 0)]
    pe = P.fn('nimble::PenaltyContactEnforcement::EnforceContact', pred=lambda f: 'vector' in f['params'][5]['t'])
    pv = P.fn('nimble::PenaltyContactEnforcement::EnforceContact', pred=lambda f: 'View' in f['params'][5]['t'])
    ke = P.fn('nimble::KokkosPenaltyContactEnforcement::EnforceContact')
    ki = P.fn('nimble::ContactInterface::EnforceNodeFaceInteraction')
    mi = P.fn(CM + '::EnforceNodeFaceInteraction', pred=lambda f: 'vector' in f['params'][5]['t'])
    mv = P.fn(CM + '::EnforceNodeFaceInteraction', pred=lambda f: 'View' in f['params'][5]['t'])
    V = 'Kokkos::View<double *, Kokkos::LayoutRight>'
    for f in (pe, pv, ke, ki, mi, mv):
        R.used(f)
        wh = where(f, P)
        view, kok = f in (pv, mv, ke, ki), f in (ke, ki)
        for nodes, fict, nd in cfg:
            tag = '%s, face %s node %d: ' % (f['q'].replace('nimble::', '') + (' (view)' if view else ''), nodes, nd)
            ro = 'G'
            mem = {**node_(P, R, 'arg0', q, n=nd), **tri_(P, R, 'arg1', p, nodes=nodes, fict=fict), **arr('nv', nv), **arr('b', cp if kok else bc)}
            mem.update({('G', (('i', c(3 * n + k)),)): old[n][k] for n in range(9) for k in range(3)})
            mem[('G', (('f', '#size'),))] = c(27)
            vw = Val('vw', 'G', ZERO, (ONE,), (c(27),))
            enf = (('f', 'enforcement'),) if f in (ki, mi, mv) else ()
            mem[('this', enf + (('f', 'penalty'),))] = pen
            if kok:
                mem[('this', enf + (('f', 'contact_manager_force'),))] = vw
            args = [None, None] + ([S('cnt')] if kok else []) + [gap, T.ptr(('nv', z)), T.ptr(('b', z))]
            if not kok:
                if view:
                    mem[('vv', ())] = vw
                args.append(Val('obj', ('G', ())) if not view else Val('lref', ('vv', ())))
            r = Run0(P, f, args, mem, 0, machine=views.Interp, peel=True)
            if not kok:
                N = bc
                Fv = [ZERO - pen * gap * n for n in nv]
                want = expected(nodes, fict, nd, N, Fv, old)
                sy = None
            else:
                N = areas(p, cp)
                Fv = [ZERO - pen * gap * S('cnt').recip() * n for n in nv]
                want = expected(nodes, fict, nd, N, Fv, old)
                sy = True
            for n in range(9):
                for k in range(3):
                    got = T.to_num(r.I.load(r.st, ('G', (('i', c(3 * n + k)),)), 'double'))
                    if kok:
                        wk = T.ite(T.b_gt0(ZERO - gap), want[n][k], old[n][k])
                        eq(R, 'force', tag + '%d%s' % (n, XYZ[k]), wh, got, wk, syms=contactpoint(p), n=8)
                    else:
                        eq(R, 'force', tag + '%d%s' % (n, XYZ[k]), wh, got, want[n][k])


def areas(p, x):
    """barycentric coordinates of a point of the triangle"""
    return bary(p, x)[0]


def contactpoint(p):
    def f(seed):
        d = sample('inside')(seed)
        g = _random.Random('cp %s' % seed)
        a = [g.uniform(.05, 1) for _ in range(3)]
        a = [x / sum(a) for x in a]
        for x in XYZ:
            d['cp' + x] = sum(a[i] * d['t%d%s' % (i, x)] for i in range(3))
        d['cnt'] = g.randint(1, 4)
        d['gap'] = g.uniform(.05, 1) * (1 if seed % 3 == 0 else -1)
        return d
    return f


def pack(P, R):
    """faces packed into bytes and unpacked are the same faces"""
    fs = P.fn('nimble::SerializeContactFaces')
    fu = P.fn('nimble::UnserializeContactFaces')
    R.used(fs)
    R.used(fu)
    z = (('i', ZERO),)
    B = 'arg2'
    ents = [(pts('t', 6)[:3], (2, 4), (1, 2, 4, 5), 17), (pts('t', 6)[3:], (8, 3), (3, 0, 6, 8), 99)]
    mem = {(B, (('f', '#size'),)): ZERO}
    for i, (p, nodes, fict, gid) in enumerate(ents):
        for k, v in tri_(P, R, 'E', p, S('len%d' % i), nodes, fict, gid=gid).items():
            mem[(k[0], (('i', c(i)),) + k[1])] = v

    def cpy(I, e, st, fr):
        d, s, n = [I.rv(a, st, fr) for a in e['args']]
        n = T.to_num(n).as_int()

        def loc(v):
            # a scalar of an entity, or a place in the buffer
            l = I.deref(v, st, 'char')
            return l
        ld, ls = loc(d), loc(s)
        buf = ld if ld[0] == B else ls
        oth = ls if ld[0] == B else ld
        off = buf[1][-1][1].as_int()
        if buf[0] != B or off is None:
            return NotImplemented
        size = I.size_of(st, (B, ()), '').as_int()
        if size is None or off < 0 or off + n > size:
            raise facts.Violated('copies %d bytes at %d of a buffer of %s' % (n, off, size), '%s:%s' % (fr.file, e.get('l')))
        t = 'int' if n == 4 else 'double'
        k = ('bytes', (('i', c(off)),))
        if ld[0] == B:
            st.mem[k] = I.load(st, oth, t)
            st.mem[('bytes', (('i', c(off)), ('f', 'n')))] = c(n)
        else:
            if st.mem.get(('bytes', (('i', c(off)), ('f', 'n')))) != c(n):
                raise facts.Violated('reads %d bytes at %d, none were written there' % (n, off), '%s:%s' % (fr.file, e.get('l')))
            I.store(st, oth, st.mem[k], node=e, fr=fr)
        return d
    h = {'memcpy': cpy, 'std::memcpy': cpy}
    r = Run0(P, fs, [c(2), T.ptr(('E', z)), None], mem, 0, machine=views.Interp, peel=True, intr=h)
    m2 = {k: v for k, v in r.st.mem.items() if k[0] in (B, 'bytes')}
    r = Run0(P, fu, [c(2), T.ptr(('U', z)), None], m2, 1000, machine=views.Interp, peel=True, intr=h)
    wh = where(fu, P)
    num = fields(r)
    for i, (p, nodes, fict, gid) in enumerate(ents):
        tag = 'packed face %d: ' % i
        for k in range(3):
            for j in range(3):
                R.check(num(('U', i, 'coord_%d_%s_' % (k + 1, XYZ[j]))) == p[k][j], 'entity', tag + 'point %d%s' % (k + 1, XYZ[j]), wh, 'differs')
        ints = {'contact_entity_global_id_': gid, 'node_id_for_node_1_': nodes[0], 'node_id_for_node_2_': nodes[1], 'num_nodes_': 3, **{'node_id_%d_for_fictitious_node_' % (k + 1): fict[k] for k in range(4)}}
        for a, v in ints.items():
            R.check(num(('U', i, a), 'int') == c(v), 'entity', tag + a, wh, 'gives %s, packed %s' % (T.vstr(num(('U', i, a), 'int')), v))
        R.check(num(('U', i, 'char_len_')) == S('len%d' % i) and num(('U', i, 'entity_type_'), 'int') == enum(P, 'TRIANGLE'), 'entity', tag + 'length and type', wh, 'differs')
        geometry(R, tag, wh, num, ('U', i), p, S('len%d' % i), n=4)


# ------------------------------------------------------------------ a contact step
KEEP = ('this', 'interface', 'bytes')


def kept(r):
    return {k: v for k, v in r.st.mem.items() if k[0] in KEEP or isinstance(k[0], str) and k[0].startswith(('view', 'disp', 'cf', 'md'))}


def step(P, R):
    R.guard('step', 'a step', step1, P, R, 'one rank, single elements')
    R.guard('step', 'a step on two ranks', step1, P, R, 'two ranks')


def step1(P, R, nm):
    ranks, mems, runs = P21.build(P, R, nm)
    mems = [kept(x) for x in runs]
    for m in mems:
        m[('interface', (('f', '#type'),))] = T.strv('nimble::ContactInterface')
    call = lambda name, args, extra=lambda r: {}, n=None, pred=None: _call(P, R, name, mems, args, extra, n, pred)
    W = {}
    N = [len(ns) for _, ns in ranks]
    z = (('i', ZERO),)
    U = lambda r, i, k: S('U%d.%d%s' % (r, ranks[r][1][i], XYZ[k]))
    for r in range(len(ranks)):
        for i in range(N[r]):
            for k in range(3):
                mems[r][('disp', (('i', c(3 * i + k)),))] = U(r, i, k)
                for a in ('cfd', 'cfh'):
                    mems[r][(a, (('i', c(3 * i + k)),))] = S('stale%s%d%s' % (a, i, k))
    vw = lambda root, r: Val('vw', root, ZERO, (c(3), ONE), (c(N[r]), c(3)))

    # the parameter
    f = P.fn(CM + '::SetPenaltyParameter')
    wh = where(f, P)
    for v in (ZERO, c(-2)):
        x = _call(P, R, 'SetPenaltyParameter', [dict(m) for m in mems], lambda r: [v])
        y = _call(P, R, 'ComputeContactForce', [kept(a) for a in x], lambda r: [c(1), FALSE, None], hooks(P, ranks, vw, []), n=3)
        R.check(all(P18.stop(a) for a in y), 'step', '%s: a penalty of %s is rejected' % (nm, T.vstr(v)), wh, 'accepted')
    y = _call(P, R, 'ComputeContactForce', [dict(m) for m in mems], lambda r: [c(1), FALSE, None], hooks(P, ranks, vw, []), n=3)
    R.check(all(P18.stop(a) for a in y), 'step', nm + ': a step without penalty is rejected', wh, 'accepted')
    for v in (c(.25), c(3000)):
        x = _call(P, R, 'SetPenaltyParameter', [dict(m) for m in mems], lambda r: [v])
        y = _call(P, R, 'ComputeContactForce', [kept(a) for a in x], lambda r: [c(1), FALSE, None], hooks(P, ranks, vw, []), n=3)
        R.check(not any(P18.stop(a) for a in y), 'step', '%s: a penalty of %s is accepted' % (nm, T.vstr(v)), wh, 'rejected')
    x = call('SetPenaltyParameter', lambda r: [S('pen')])
    for r, a in enumerate(x):
        g = fields(a)
        R.check(g(('this', 'enforcement', 'penalty')) == S('pen') and g(('this', 'penalty_parameter_')) == S('pen') and g(('interface', 'enforcement', 'penalty')) == S('pen'), 'step', '%s, rank %d: the penalty reaches every enforcement' % (nm, r), wh, 'differs')
        mems[r] = kept(a)
    for r in range(len(mems)):
        mems[r] = {**mems[r]}
    facts_ = lambda s: T.b_gt0(s)
    x = call('GetPenaltyForceParam', lambda r: [])
    R.check(all(a.ret == S('pen') for a in x), 'step', nm + ': the penalty is reported', where(x[0].fn, P), 'differs')

    # a step
    log = []
    f = P.fn(CM + '::ComputeContactForce', 3)
    wh = where(f, P)
    x = _call(P, R, 'ComputeContactForce', mems, lambda r: [c(1), FALSE, None], hooks(P, ranks, vw, log), n=3)
    for r, a in enumerate(x):
        tag = '%s, rank %d: ' % (nm, r)
        ns = ranks[r][1]
        g = fields(a)
        ck = lambda cond, w, msg='differs': R.check(cond, 'step', tag + w, wh, msg)
        ck(not P18.stop(a, {'pen': 1}) if False else not [e for e in a.trace if e.kind == 'throw' and e.guards == ()], 'completes', 'stops')
        mine = [e for e in log if e['rank'] == r]
        ids = [g(('this', 'node_ids_', i), 'int').as_int() for i in range(a.I.size_of(a.st, ('this', (('f', 'node_ids_'),)), '').as_int())]
        enf, red = [e for e in mine if e['what'] == 'search'], [e for e in mine if e['what'] == 'reduce']
        ck(len(enf) == 1, 'one search', '%d searches' % len(enf))
        ck(len(red) == 1, 'one reduction', '%d reductions' % len(red))
        if len(enf) != 1 or len(red) != 1:
            continue
        s = enf[0]
        ck(s['force'] == [ZERO] * (3 * len(ids)), 'forces are cleared before the search', 'forces are %s' % [T.vstr(v) for v in s['force'][:3]])
        want = [X_(ns[n], k) + U(r, n, k) for n in ids for k in range(3)]
        ck(s['coord'] == want, 'the surfaces are displaced before the search', 'coordinates are %s' % [T.vstr(v) for v in s['coord'][:3]])
        ck(s['penalty'] == S('pen'), 'the search has the penalty')
        ck(s['same'], 'the search writes the forces of the manager')
        loc = {n: i for i, n in enumerate(ids)}
        after = [(S('F%d.%d%s' % (r, i, XYZ[k])) if i is not None else ZERO) for n in range(N[r]) for i in [loc.get(n)] for k in range(3)]
        ck(red[0]['dim'] == c(3) and red[0]['vals'] == after, 'the reduction gets the force of every node', 'reduces %s' % [T.vstr(v) for v in red[0]['vals'][:6]])
        fin = [T.to_num(a.I.load(a.st, ('cfh', (('i', c(i)),)), 'double')) for i in range(3 * N[r])]
        ck(fin == [S('R%d.%d' % (r, i)) for i in range(3 * N[r])], 'the reduced forces stay', 'host forces are %s' % [T.vstr(v) for v in fin[:3]])
        for kind, p in (('nodes', 1), ('faces', 3)):
            w = a.st.mem[('this', (('f', 'contact_%s_d_' % kind),))]
            for i in range(w.a[3][0].as_int()):
                l = a.I.cell(w, [c(i)])
                num = lambda path, t='double': T.to_num(a.I.load(a.st, (l[0], l[1] + tuple(('f', q) if isinstance(q, str) else ('i', c(q)) for q in path)), t))
                n1 = num(('node_id_for_node_1_',), 'int').as_int()
                crd = lambda j: [want[3 * j + k] for k in range(3)]
                P_ = [crd(n1)]
                if p == 3:
                    P_.append(crd(num(('node_id_for_node_2_',), 'int').as_int()))
                    fi = [num(('node_id_%d_for_fictitious_node_' % j,), 'int').as_int() for j in (1, 2, 3, 4)]
                    P_.append([sum_([crd(j)[k] for j in fi]) * c(4).recip() for k in range(3)])
                ck(all(num(('coord_%d_%s_' % (j + 1, XYZ[k]),)) == P_[j][k] for j in range(p) for k in range(3)), '%s %d moved' % (kind, i))
                if i % 5 == 0:
                    geometry(R, tag + '%s %d: ' % (kind, i), wh, num, (), P_, num(('char_len_',)), n=3)
    mems = [kept(a) for a in x]

    # clearing
    for r in range(len(mems)):
        for kind in ('nodes', 'faces'):
            w = mems[r][('this', (('f', 'contact_%s_d_' % kind),))]
            for i in range(w.a[3][0].as_int()):
                l = x[r].I.cell(w, [c(i)])
                mems[r][(l[0], l[1] + (('f', 'contact_status_'),))] = T.TRUE if i % 3 else T.FALSE
                for j in (1, 2, 3):
                    for k in XYZ:
                        mems[r][(l[0], l[1] + (('f', 'force_%d_%s_' % (j, k)),))] = S('old')
        n = x[r].I.size_of(x[r].st, ('this', (('f', 'force_'),)), '').as_int()
        for i in range(n):
            mems[r][('this', (('f', 'force_'), ('i', c(i))))] = S('old')
    y = _call(P, R, 'ZeroContactForce', [dict(m) for m in mems], lambda r: [])
    y2 = _call(P, R, 'ResetContactStatus', [dict(m) for m in mems], lambda r: [])
    for r, a in enumerate(y):
        wz, wr = where(a.fn, P), where(y2[r].fn, P)
        for kind in ('nodes', 'faces'):
            w = mems[r][('this', (('f', 'contact_%s_d_' % kind),))]
            m = w.a[3][0].as_int()
            cells = [a.I.cell(w, [c(i)]) for i in range(m)]
            ld = lambda run_, l, q, t='double': T.to_num(run_.I.load(run_.st, (l[0], l[1] + (('f', q),)), t))
            R.check(all(ld(a, l, 'force_%d_%s_' % (j, k)) == ZERO for l in cells for j in ((1, 2, 3) if kind == 'faces' else (1,)) for k in XYZ), 'step', '%s, rank %d: forces of %s cleared' % (nm, r, kind), wz, 'a force stays')
            R.check(all(ld(y2[r], l, 'contact_status_', 'bool') == ZERO for l in cells), 'step', '%s, rank %d: status of %s cleared' % (nm, r, kind), wr, 'a status stays')
        n = a.I.size_of(a.st, ('this', (('f', 'force_'),)), '').as_int()
        R.check(all(T.to_num(a.I.load(a.st, ('this', (('f', 'force_'), ('i', c(i)))), 'double')) == ZERO for i in range(n)), 'step', '%s, rank %d: force array cleared' % (nm, r), wz, 'a force stays')
        w = a.st.mem[('this', (('f', 'force_d_'),))]
        R.check(all(T.to_num(a.I.load(a.st, a.I.cell(w, [c(i)]), 'double')) == ZERO for i in range(w.a[3][0].as_int())), 'step', '%s, rank %d: force view cleared' % (nm, r), wz, 'a force stays')
    # counts of the host copies
    for r in range(len(mems)):
        for kind in ('nodes', 'faces'):
            w = mems[r][('this', (('f', 'contact_%s_h_' % kind),))]
            for i in range(w.a[3][0].as_int()):
                l = x[r].I.cell(w, [c(i)])
                mems[r][(l[0], l[1] + (('f', 'contact_status_'),))] = T.TRUE if i % 3 == (kind == 'nodes') else T.FALSE
    for name, kind, act in (('numContactFaces', 'faces', 0), ('numContactNodes', 'nodes', 0), ('numActiveContactFaces', 'faces', 1), ('numActiveContactNodes', 'nodes', 1)):
        y = _call(P, R, name, [dict(m) for m in mems], lambda r: [])
        for r, a in enumerate(y):
            m = mems[r][('this', (('f', 'contact_%s_h_' % kind),))].a[3][0].as_int()
            want = len([i for i in range(m) if i % 3 == (kind == 'nodes')]) if act else m
            R.check(T.to_num(a.ret) == c(want), 'step', '%s, rank %d: %s' % (nm, r, name), where(a.fn, P), 'gives %s, required %d' % (T.vstr(a.ret), want))


def _call(P, R, name, mems, args, extra=lambda r: {}, n=None, pred=None):
    f = P.fn(CM + '::' + name, n, pred)
    R.used(f)
    return P21.world(P, f, mems, args, extra).runs


def hooks(P, ranks, vw, log):
    """the model data, the search and the reduction"""
    def of(r):
        ptr = lambda root: (lambda I, e, st, fr: T.ptr((root, ())))

        def search(I, e, st, fr):
            n, fc = I.rv(e['args'][0], st, fr), I.rv(e['args'][1], st, fr)
            en = I.rv(e['args'][2], st, fr)
            l = en.a[0] if isinstance(en, Val) and en.tag == 'obj' else None
            w = st.mem.get(('this', (('f', 'force_d_'),)))
            cd = st.mem.get(('this', (('f', 'coord_d_'),)))
            m = w.a[3][0].as_int()
            v = I.load(st, (l[0], l[1] + (('f', 'contact_manager_force'),)), 'Kokkos::View<double *>')
            log.append({'rank': r, 'what': 'search', 'force': [T.to_num(I.load(st, I.cell(w, [c(i)]), 'double')) for i in range(m)],
                        'coord': [T.to_num(I.load(st, I.cell(cd, [c(i)]), 'double')) for i in range(m)],
                        'penalty': T.to_num(I.load(st, (l[0], l[1] + (('f', 'penalty'),)), 'double')),
                        'same': v == w and n == st.mem.get(('this', (('f', 'contact_nodes_d_'),))) and fc == st.mem.get(('this', (('f', 'contact_faces_d_'),)))})
            for i in range(m):
                I.store(st, I.cell(v, [c(i)]), S('F%d.%d%s' % (r, i // 3, XYZ[i % 3])), node=e, fr=fr)
            return T.VOID

        def reduce_(I, e, st, fr):
            d = T.to_num(I.rv(e['args'][0], st, fr))
            a = I.rv(e['args'][1], st, fr)
            w = a if isinstance(a, Val) and a.tag == 'vw' else None
            if w is None and isinstance(a, Val) and a.tag == 'obj':
                w = I.load(st, a.a[0], 'Kokkos::View<double *[3]>')
            n = len(ranks[r][1])
            cells = [I.cell(w, [c(i), c(k)]) for i in range(n) for k in range(3)]
            log.append({'rank': r, 'what': 'reduce', 'dim': d, 'vals': [T.to_num(I.load(st, l, 'double')) for l in cells]})
            for i, l in enumerate(cells):
                I.store(st, l, S('R%d.%d' % (r, i)), node=e, fr=fr)
            return T.VOID

        def view(root):
            def h(I, e, st, fr):
                fid = T.to_num(I.rv(e['args'][0], st, fr))
                return vw({'disp': 'disp', 'cf': 'cf' + root}[{c(1): 'disp', c(2): 'cf'}[fid]], r)
            return h

        def ids(I, e, st, fr):
            st.mem[('fids', (('f', 'displacement'),))] = c(1)
            st.mem[('fids', (('f', 'contact_force'),))] = c(2)
            return Val('lref', ('fids', ()))

        def model(I, e, st, fr):
            st.mem[('md', (('f', '#type'),))] = T.strv('nimble_kokkos::ModelData')
            st.mem[('mdp', ())] = T.ptr(('md', ()))
            return Val('obj', ('mdp', ()))

        def comm(I, e, st, fr):
            st.mem[('vcp', ())] = T.ptr(('vc', ()))
            return Val('obj', ('vcp', ()))
        return {'nimble::DataManager::GetParser': lambda I, e, st, fr: Val('lref', ('parser', ())), 'nimble::DataManager::GetModelData': model, 'nimble::DataManager::GetFieldIDs': ids,
                'nimble::DataManager::GetVectorCommunicator': comm, 'nimble_kokkos::ModelData::GetDeviceVectorNodeData': view('d'), 'nimble_kokkos::ModelData::GetHostVectorNodeData': view('h'),
                'nimble::VectorCommunicator::VectorReduction': reduce_, 'nimble::ContactInterface::DoSearchAndEnforcement': search}
    return of
