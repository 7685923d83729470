"""Sums over the ranks of a partitioned mesh."""
import os
import sys
import threading
from .lib import *
from ..core import facts, intrinsics

UNITS = ['nimble.mpi.reduction.cc', 'nimble_tpetra_utils.cc', 'nimble_data_utils.cc']
EXTRA = [os.path.join(facts.NSA, 'witness', 'reduce.cc')]
UNDEF = -32766


class Failure(Exception):
    """what the ranks together do wrong"""


class Unknown(Exception):
    """the evaluation of a rank does not determine what it does"""


class Quit(BaseException):
    pass


class Comm:
    def __init__(self, w, members, name):
        self.w, self.members, self.name = w, list(members), name
        self.calls = [[] for _ in self.members]
        self.done = 0


class Op:
    """one collective call of one rank"""

    def __init__(self, name, match, data, finish):
        self.name, self.match, self.data, self.finish = name, match, data, finish
        self.ready = False


class World:
    """all ranks of one run, evaluated in lockstep: a blocking collective suspends its rank until all ranks
    of the communicator have called it; a nonblocking one completes when the schedule says so"""

    def __init__(self, P, fn, n, mems, args, schedule=0):
        self.P, self.fn, self.n, self.mems, self.args, self.schedule = P, fn, n, mems, args, schedule
        self.world = Comm(self, range(n), 'world')
        self.comms = {'world': self.world}
        self.runs = [None] * n
        self.err = [None] * n
        self.turn = None
        self.cv = threading.Condition()
        self.tests = {}
        self.tpo = {}
        self.order = []
        self.over = False
        self.rank = {}
        self.mail = {}

    # scheduling: exactly one thread works at a time
    def switch(self, who):
        """hand the work over to `who` and wait until it comes back"""
        me = threading.get_ident()
        with self.cv:
            self.turn = who
            self.cv.notify_all()
            while self.turn != me:
                self.cv.wait()
        if self.over and me != self.main:
            raise Quit()

    def start(self, r):
        return Run(self.P, self.fn, args=self.args(r), mem=dict(self.mems[r]), intr=self.hooks(r), machine=type('M', (Machine,), {'world': self, 'rank': r}), peel=True, maxsteps=4000000)

    def body(self, r):
        me = threading.get_ident()
        with self.cv:
            while self.turn != me:
                self.cv.wait()
        try:
            if not self.over:
                self.runs[r] = self.start(r)
        except Quit:
            pass
        except BaseException as ex:
            self.err[r] = ex
        with self.cv:
            self.finished[r] = True
            self.turn = self.main
            self.cv.notify_all()

    def go(self):
        self.main = threading.get_ident()
        self.finished = [False] * self.n
        old = threading.stack_size(512 * 1024 * 1024)
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 200000))
        ts = [threading.Thread(target=self.body, args=(r,), daemon=True) for r in range(self.n)]
        self.turn = self.main
        for t in ts:
            t.start()
        threading.stack_size(old)
        self.waits = [None] * self.n
        ids = [t.ident for t in ts]
        try:
            while not all(self.finished):
                moved = False
                rs = list(range(self.n))
                if self.schedule % 2:
                    rs.reverse()
                for r in rs:
                    if self.finished[r] or self.waits[r] is not None and not self.waits[r]():
                        continue
                    self.waits[r] = None
                    moved = True
                    self.switch(ids[r])
                    if self.err[r] is not None:
                        raise self.err[r]
                    self.complete()
                if not moved and not self.complete():
                    st = ['rank %d waits in %s' % (r, self.where(r)) for r in range(self.n) if not self.finished[r]]
                    raise Failure('the ranks wait for each other: ' + '; '.join(st))
            for cm in self.comms.values():
                if len(set(len(x) for x in cm.calls)) > 1:
                    raise Failure('ranks %s make different numbers of collective calls on %s: %s' % (cm.members, cm.name, [len(x) for x in cm.calls]))
        finally:
            self.over = True
            for r in range(self.n):
                if not self.finished[r]:
                    self.switch(ids[r])
            for t in ts:
                t.join()
        return self

    def where(self, r):
        for cm in self.comms.values():
            if r in cm.members:
                for o in cm.calls[cm.members.index(r)]:
                    if not o.ready:
                        return '%s on %s' % (o.name, cm.name)
        return 'a call that never completes'

    def complete(self):
        """finish the collectives every rank of the communicator has called"""
        any_ = False
        for cm in list(self.comms.values()):
            while all(len(x) > cm.done for x in cm.calls):
                ops = [x[cm.done] for x in cm.calls]
                cm.done += 1
                any_ = True
                if len(set((o.name, o.match) for o in ops)) > 1:
                    raise Failure('collective call %d on %s differs: %s' % (cm.done, cm.name, ', '.join('rank %d %s%s' % (m, o.name, list(o.match)) for m, o in zip(cm.members, ops))))
                o = ops[0]
                res = o.finish(cm, [x.data for x in ops])
                for x, v in zip(ops, res):
                    x.result = v
                    x.ready = True
                self.order.append((o.name, cm.name))
        return any_

    def post(self, r, cm, op):
        if r not in cm.members:
            raise Failure('rank %d calls %s on a communicator it is not in' % (r, op.name))
        cm.calls[cm.members.index(r)].append(op)
        return op

    def block(self, r, cm, op):
        self.post(r, cm, op)
        self.waits[r] = lambda: op.ready
        self.switch(self.main)
        return op.result

    # ------------------------------------------------------------------ Tpetra objects
    def tnew(self, d, r):
        d['rank'] = r
        d['serial'] = sum(1 for x in self.tpo.values() if x['rank'] == r and x['kind'] == d['kind'])
        name = '%d.%s.%d' % (r, d['kind'], d['serial'])
        d['name'] = name
        self.tpo[name] = d
        return T.ptr(('new~tp:' + name, (('&',),)))

    def peers(self, d):
        """the same object on every rank: objects are made in the same order"""
        return [self.tpo['%d.%s.%d' % (q, d['kind'], d['serial'])] for q in range(self.n)]

    def tobj(self, v, kind, st):
        while isinstance(v, Val) and v.tag == 'op' and v.a[0] == 'new:Teuchos::RCP' and len(v.a) == 2:
            v = v.a[1][0] if isinstance(v.a[1], tuple) else v.a[1]
        loc = v if isinstance(v, tuple) else v.a[0] if isinstance(v, Val) and v.tag in ('ptr', 'obj') else None
        for _ in range(3):
            if loc is not None and isinstance(loc[0], str) and loc[0].startswith('new~tp:'):
                d = self.tpo[loc[0][7:]]
                if d['kind'] != kind:
                    raise Unknown('%s instead of a %s' % (d['kind'], kind))
                return d
            w = st.mem.get((loc[0], tuple(x for x in loc[1] if x != ('&',)))) if loc is not None else None
            if isinstance(w, Val) and w.tag == 'op':
                return self.tobj(w, kind, st)
            loc = w.a[0] if isinstance(w, Val) and w.tag in ('ptr', 'obj') else None
        raise Unknown('no Tpetra %s: %s' % (kind, T.vstr(v) if isinstance(v, (Val, Poly)) else T.lstr(v)))

    def tpetra(self, k, I, st, a, r):
        if k == 'Map':
            if len(a) != 5:
                raise Unknown('Map with %d arguments' % len(a))
            n = ints([a[2]])[0]
            ids = ints([I.load(st, I.index(a[1], Poly.const(i), None), 'long long') for i in range(n)])
            if ints([a[3]])[0] != 0:
                raise Unknown('index base')
            if len(set(ids)) != len(ids):
                raise Failure('rank %d lists an entry twice in a map' % r)
            self.block(r, self.world, Op('Tpetra::Map', (), None, lambda cm, d: d))
            return self.tnew(dict(kind='map', ids=ids), r)
        if k == 'Vector':
            v = self.tnew(dict(kind='vector', map=self.tobj(a[0], 'map', st)), r)
            d = self.tobj(v, 'vector', st)
            d['root'] = 'tpv:' + d['name']
            for i in range(len(d['map']['ids'])):
                I.put(st, (d['root'], (('i', Poly.const(i)),)), ZERO)
            return v
        self.block(r, self.world, Op('Tpetra::' + k, (), None, lambda cm, d: d))
        return self.tnew(dict(kind=k.lower(), src=self.tobj(a[0], 'map', st), tgt=self.tobj(a[1], 'map', st)), r)

    # ------------------------------------------------------------------ the calls
    def hooks(self, r):
        W = self

        def comm(I, e, st, fr):
            v = I.rv(e, st, fr)
            if isinstance(v, Val) and v.tag == 'ptr':
                n = v.a[0]
                nm = n[0] if isinstance(n, tuple) else n
                if isinstance(nm, str) and nm.startswith('comm:'):
                    return W.comms[nm[5:]]
                if 'ompi_mpi_comm_world' in T.vstr(v):
                    return W.world
            if 'ompi_mpi_comm_world' in T.vstr(v):
                return W.world
            raise Unknown('communicator %s' % T.vstr(v))

        def rooted(cm, root):
            if not 0 <= root < len(cm.members):
                raise Failure('rank %d names %d as root of a communicator of %d ranks' % (r, root, len(cm.members)))

        def num(I, e, st, fr):
            v = T.to_num(I.rv(e, st, fr))
            n = v.as_int() if isinstance(v, Poly) else None
            if n is None:
                raise Unknown('argument %s' % T.vstr(v))
            return n

        def typ(I, e, st, fr):
            s = T.vstr(I.rv(e, st, fr))
            for k in ('mpi_int', 'mpi_double', 'mpi_op_sum', 'mpi_op_max', 'mpi_op_min', 'mpi_unsigned_long'):
                if 'ompi_' + k in s:
                    return k
            return s

        def get(I, st, p, k, n, t):
            out = []
            if n > 0 and isinstance(p, Val) and p.tag == 'null':
                raise Failure('rank %d hands MPI a null buffer' % r)
            if n < 0:
                raise Failure('rank %d hands MPI a count of %d' % (r, n))
            for i in range(n):
                l = I.index(p, Poly.const(k + i), None)
                out.append(I.load(st, l, t))
            return out

        def put(I, st, p, k, vals):
            if vals and isinstance(p, Val) and p.tag == 'null':
                raise Failure('rank %d hands MPI a null buffer' % r)
            for i, v in enumerate(vals):
                I.store(st, I.index(p, Poly.const(k + i), None), v)

        CT = {'mpi_int': 'int', 'mpi_double': 'double', 'mpi_unsigned_long': 'unsigned long'}

        def rank(I, e, st, fr):
            cm = comm(I, e['args'][0], st, fr)
            put(I, st, I.rv(e['args'][1], st, fr), 0, [Poly.const(cm.members.index(r))])
            return ZERO

        def size(I, e, st, fr):
            cm = comm(I, e['args'][0], st, fr)
            put(I, st, I.rv(e['args'][1], st, fr), 0, [Poly.const(len(cm.members))])
            return ZERO

        def newcomm(members, name):
            if name not in W.comms:
                W.comms[name] = Comm(W, members, name)
            return T.ptr(('comm:' + name, ()))

        def dup(I, e, st, fr):
            cm = comm(I, e['args'][0], st, fr)

            def fin(cm, data):
                return [newcomm(cm.members, '%s/d%d' % (cm.name, cm.done))] * len(data)
            v = W.block(r, cm, Op('MPI_Comm_dup', (), None, fin))
            put(I, st, I.rv(e['args'][1], st, fr), 0, [v])
            return ZERO

        def split(I, e, st, fr):
            cm = comm(I, e['args'][0], st, fr)
            color, key = num(I, e['args'][1], st, fr), num(I, e['args'][2], st, fr)
            if color < 0 and color != UNDEF:
                raise Failure('rank %d splits %s with color %d' % (r, cm.name, color))

            def fin(cm, data):
                out = [None] * len(data)
                for c_ in sorted(set(d[0] for d in data)):
                    if c_ == UNDEF:
                        continue
                    g = sorted((d[1], i) for i, d in enumerate(data) if d[0] == c_)
                    v = newcomm([cm.members[i] for _, i in g], '%s/s%d.%d' % (cm.name, cm.done, c_))
                    for _, i in g:
                        out[i] = v
                return out
            v = W.block(r, cm, Op('MPI_Comm_split', (), (color, key), fin))
            put(I, st, I.rv(e['args'][3], st, fr), 0, [v if v is not None else T.ptr(('global:ompi_mpi_comm_null', ()))])
            return ZERO

        def allgather(I, e, st, fr):
            a = e['args']
            cm = comm(I, a[6], st, fr)
            n, m = num(I, a[1], st, fr), num(I, a[4], st, fr)
            t, u = typ(I, a[2], st, fr), typ(I, a[5], st, fr)
            d = get(I, st, I.rv(a[0], st, fr), 0, n, CT.get(t, t))

            def fin(cm, data):
                return [[x for y in data for x in y]] * len(data)
            v = W.block(r, cm, Op('MPI_Allgather', (n, t, m, u), d, fin))
            put(I, st, I.rv(a[3], st, fr), 0, v)
            return ZERO

        def gatherv(I, e, st, fr):
            a = e['args']
            cm = comm(I, a[8], st, fr)
            n, root = num(I, a[1], st, fr), num(I, a[7], st, fr)
            rooted(cm, root)
            t, u = typ(I, a[2], st, fr), typ(I, a[6], st, fr)
            d = get(I, st, I.rv(a[0], st, fr), 0, n, CT.get(t, t))
            me = cm.members.index(r)
            v = W.block(r, cm, Op('MPI_Gatherv', (root, t), d, lambda cm, data: [data] * len(data)))
            if me == root:
                cp, dp, p = I.rv(a[4], st, fr), I.rv(a[5], st, fr), I.rv(a[3], st, fr)
                for k, x in enumerate(v):
                    ct, ds = [ints(get(I, st, q, k, 1, 'int'))[0] for q in (cp, dp)]
                    if ct != len(x):
                        raise Failure('the root expects %d values of rank %d, which sends %d' % (ct, k, len(x)))
                    put(I, st, p, ds, x)
            return ZERO

        def scatterv(I, e, st, fr):
            a = e['args']
            cm = comm(I, a[8], st, fr)
            n, root = num(I, a[5], st, fr), num(I, a[7], st, fr)
            rooted(cm, root)
            t = typ(I, a[3], st, fr)
            me = cm.members.index(r)
            d = None
            if me == root:
                sp, cp, dp = I.rv(a[0], st, fr), I.rv(a[1], st, fr), I.rv(a[2], st, fr)
                d = []
                for k in range(len(cm.members)):
                    ct, ds = [ints(get(I, st, q, k, 1, 'int'))[0] for q in (cp, dp)]
                    d.append(get(I, st, sp, ds, ct, CT.get(t, t)))
            v = W.block(r, cm, Op('MPI_Scatterv', (root, t), d, lambda cm, data: data[root]))
            if len(v) != n:
                raise Failure('rank %d expects %d values, the root sends %d' % (r, n, len(v)))
            put(I, st, I.rv(a[4], st, fr), 0, v)
            return ZERO

        def bcast(I, e, st, fr):
            a = e['args']
            cm = comm(I, a[4], st, fr)
            n, root, t = num(I, a[1], st, fr), num(I, a[3], st, fr), typ(I, a[2], st, fr)
            rooted(cm, root)
            p = I.rv(a[0], st, fr)
            d = get(I, st, p, 0, n, CT.get(t, t)) if cm.members.index(r) == root else None
            v = W.block(r, cm, Op('MPI_Bcast', (n, root, t), d, lambda cm, data: [data[root]] * len(data)))
            put(I, st, p, 0, v)
            return ZERO

        def sendrecv(I, e, st, fr):
            a = e['args']
            cm = comm(I, a[10], st, fr)
            n, m = num(I, a[1], st, fr), num(I, a[6], st, fr)
            to, tag, frm, rtag = num(I, a[3], st, fr), num(I, a[4], st, fr), num(I, a[8], st, fr), num(I, a[9], st, fr)
            t, u = typ(I, a[2], st, fr), typ(I, a[7], st, fr)
            rooted(cm, to)
            rooted(cm, frm)
            me = cm.members.index(r)
            d = get(I, st, I.rv(a[0], st, fr), 0, n, CT.get(t, t))
            W.mail.setdefault((cm.name, me, to), []).append((tag, t, d))
            p = I.rv(a[5], st, fr)
            q = W.mail.setdefault((cm.name, frm, me), [])
            there = lambda: next((k for k, x in enumerate(q) if rtag in (-1, x[0])), None)
            W.waits[r] = lambda: there() is not None
            W.switch(W.main)
            _, t2, d2 = q.pop(there())
            if t2 != u:
                raise Failure('rank %d receives %s, rank %d sent %s' % (r, u, cm.members[frm], t2))
            if len(d2) > m:
                raise Failure('rank %d receives %d values into a buffer of %d' % (r, len(d2), m))
            put(I, st, p, 0, d2)
            return ZERO

        def summed(cm, data):
            return [[sum_(list(x)) for x in zip(*data)]] * len(data)

        def extreme(k):
            return lambda cm, data: [[k2(x, k) for x in zip(*data)]] * len(data)

        def k2(x, k):
            o = x[0]
            for y in x[1:]:
                o = T.ite(T.b_gt0((y - o) * T.Poly.const(k)), y, o)
            return o

        def red(name):
            def h(I, e, st, fr):
                a = e['args']
                cm = comm(I, a[6 if name == 'MPI_Reduce' else 5], st, fr)
                n, t, o = num(I, a[2], st, fr), typ(I, a[3], st, fr), typ(I, a[4], st, fr)
                if o not in ('mpi_op_sum', 'mpi_op_max', 'mpi_op_min'):
                    raise Unknown('reduction with %s' % o)
                fin = {'mpi_op_sum': summed, 'mpi_op_max': extreme(1), 'mpi_op_min': extreme(-1)}[o]
                sp, rp = I.rv(a[0], st, fr), I.rv(a[1], st, fr)
                d = [T.to_num(x) for x in get(I, st, sp, 0, n, CT.get(t, t))]
                if name == 'MPI_Reduce':
                    root = num(I, a[5], st, fr)
                    rooted(cm, root)
                    v = W.block(r, cm, Op('MPI_Reduce', (n, t, o, root), d, fin))
                    if cm.members.index(r) == root:
                        put(I, st, rp, 0, v)
                    return ZERO
                op = Op('all-reduce', (n, t, o), d, fin)
                if name == 'MPI_Allreduce':
                    put(I, st, rp, 0, W.block(r, cm, op))
                    return ZERO
                W.post(r, cm, op)
                op.name_ = name
                q = 'req:%d.%d' % (r, len(W.tests))
                W.tests[q] = dict(op=op, send=sp, recv=rp, n=n, sent=d, asked=0, cm=cm)
                put(I, st, rp, 0, [Poly.sym('incomplete %s.%d' % (q, k)) for k in range(n)])
                put(I, st, I.rv(a[6], st, fr), 0, [T.ptr((q, ()))])
                return ZERO
            return h

        def finish(I, q, st):
            """the reduction writes its result"""
            t = W.tests.pop(q)
            now = [T.to_num(x) for x in get(I, st, t['send'], 0, t['n'], 'double')]
            if now != t['sent']:
                raise Failure('rank %d changes the send buffer of a reduction in progress' % r)
            put(I, st, t['recv'], 0, t['op'].result)

        def req(I, e, st, fr):
            p = I.rv(e, st, fr)
            v = I.load(st, I.index(p, ZERO, None), 'MPI_Request')
            nm = v.a[0][0] if isinstance(v, Val) and v.tag == 'ptr' and isinstance(v.a[0], tuple) else None
            if isinstance(nm, str) and 'ompi_request_null' in nm:
                return None, p
            if nm not in W.tests:
                raise Unknown('request %s' % T.vstr(v)) if not (isinstance(nm, str) and nm.startswith('req:')) else Failure('rank %d asks for a reduction that has completed' % r)
            return nm, p

        def test(I, e, st, fr):
            q, p = req(I, e['args'][0], st, fr)
            fl = I.rv(e['args'][1], st, fr)
            W.switch(W.main)
            ok = q is None
            if not ok:
                t = W.tests[q]
                t['asked'] += 1
                if t['asked'] > 50:
                    raise Failure('rank %d waits for a reduction the other ranks never start' % r)
                mine = sorted((k for k in W.tests if k.startswith('req:%d.' % r)), key=lambda k: int(k.split('.')[1]))
                late = [0, len(mine) - 1 - mine.index(q), (mine.index(q) * 7 + r) % 3, 2][W.schedule % 4]
                ok = t['op'].ready and t['asked'] > late
                if ok:
                    finish(I, q, st)
                    put(I, st, p, 0, [T.ptr(('global:ompi_request_null', ()))])
            put(I, st, fl, 0, [ONE if ok else ZERO])
            return ZERO

        def wait(I, e, st, fr):
            q, p = req(I, e['args'][0], st, fr)
            if q is not None:
                op = W.tests[q]['op']
                W.waits[r] = lambda: op.ready
                W.switch(W.main)
                finish(I, q, st)
                put(I, st, p, 0, [T.ptr(('global:ompi_request_null', ()))])
            return ZERO

        def onetoone(I, e, st, fr):
            m = W.tobj(I.rv(e['args'][0], st, fr), 'map', st)
            if W.block(r, W.world, Op('Tpetra::createOneToOne', (), m['ids'], lambda cm, data: [data] * len(data))) is None:
                return None
            every = [x['ids'] for x in W.peers(m)]
            mine = []
            for g in m['ids']:
                hs = [q for q in range(W.n) if g in every[q]]
                if (hs[-1] if W.schedule % 2 else hs[0]) == r:
                    mine.append(g)
            if W.schedule % 4 == 2:
                mine.reverse()
            return W.tnew(dict(kind='map', ids=mine), r)

        def data(I, e, st, fr):
            v = W.tobj(intrinsics.objloc(I, e, st, fr), 'vector', st)
            return T.ptr((v['root'], (('i', ZERO),)))

        def at(I, e, st, fr):
            v = st.mem.get(I.lv(e['obj'], st, fr))
            if not (isinstance(v, Val) and v.tag == 'ptr' and str(v.a[0][0]).startswith('tpv:')):
                return NotImplemented
            i = num(I, e['args'][0], st, fr)
            n = len(W.tpo[v.a[0][0][4:]]['map']['ids'])
            if not 0 <= i < n:
                raise Failure('rank %d accesses entry %d of a vector of %d (line %s)' % (r, i, n, e.get('l')))
            return Val('lref', (v.a[0][0], (('i', Poly.const(i)),)))

        def transfer(name, plan):
            def h(I, e, st, fr):
                tgt = W.tobj(intrinsics.objloc(I, e, st, fr), 'vector', st)
                src = W.tobj(I.rv(e['args'][0], st, fr), 'vector', st)
                pl = W.tobj(I.rv(e['args'][1], st, fr), plan, st)
                md = I.rv(e['args'][2], st, fr)
                md = T.vstr(md).split('::')[-1]
                md = dict(enumerate(('ADD', 'INSERT', 'REPLACE', 'ABSMAX', 'ZERO', 'ADD_ASSIGN'))).get(int(md) if md.isdigit() else md, md)
                if md not in ('ADD', 'INSERT', 'REPLACE', 'ABSMAX', 'ZERO', 'ADD_ASSIGN'):
                    raise Unknown('combine mode %s' % md)
                if pl['src'] is not src['map'] or pl['tgt'] is not tgt['map']:
                    raise Failure('rank %d: %s with a plan for other maps' % (r, name))
                mine = dict(zip(src['map']['ids'], [T.to_num(I.load(st, (src['root'], (('i', Poly.const(k)),)), 'double')) for k in range(len(src['map']['ids']))]))
                al = W.block(r, W.world, Op(name, (md, src['serial'], tgt['serial']), mine, lambda cm, d: [d] * len(d)))
                owners = W.peers(src['map'])
                for k, g in enumerate(tgt['map']['ids']):
                    l = (tgt['root'], (('i', Poly.const(k)),))
                    v = T.to_num(I.load(st, l, 'double'))
                    if g in mine:
                        v = v + mine[g] if md == 'ADD_ASSIGN' else mine[g]
                    inc = [d[g] for q, d in enumerate(al) if q != r and g in d]
                    if name == 'doImport' and g in mine:
                        inc = []
                    if name == 'doImport' and len(inc) > 1:
                        raise Unknown('import from a map with shared entries')
                    if md in ('INSERT', 'REPLACE') and len(inc) > 1:
                        inc = [Poly.sym('one of the values of %s.%d' % (g, r))]
                    for x in () if md == 'ZERO' else inc:
                        big = lambda a: T.app('abs', a)
                        v = v + x if md.startswith('ADD') else x if md != 'ABSMAX' else T.app('max', big(v), big(x))
                    I.store(st, l, v)
                return T.VOID
            return h

        return {'Tpetra::createOneToOne': onetoone, '*::getDataNonConst': data, '*::getData': data, 'Teuchos::ArrayRCP<double>::operator[]': at,
                'Tpetra::DistObject<double>::doExport': transfer('doExport', 'export'), 'Tpetra::DistObject<double>::doImport': transfer('doImport', 'import'),
                'Tpetra::Vector<>::getDataNonConst': data, 'Teuchos::OrdinalTraits<unsigned long>::invalid': lambda I, e, st, fr: Poly.sym('invalid'),
                'MPI_Sendrecv': sendrecv, 'MPI_Reduce': red('MPI_Reduce'),
                'MPI_Comm_rank': rank, 'MPI_Comm_size': size, 'MPI_Comm_dup': dup, 'MPI_Comm_split': split, 'MPI_Allgather': allgather,
                'MPI_Gatherv': gatherv, 'MPI_Scatterv': scatterv, 'MPI_Bcast': bcast, 'MPI_Allreduce': red('MPI_Allreduce'),
                'MPI_Iallreduce': red('MPI_Iallreduce'), 'MPI_Test': test, 'MPI_Wait': wait, 'MPI_Comm_free': lambda I, e, st, fr: ZERO}


class Machine(interp.Interp):
    """new objects of Tpetra classes: maps, vectors, export and import plans"""
    world = None

    def e_New(self, e, st, fr):
        at = interp.strip_ref(e.get('at', ''))
        k = at.split('<')[0].replace('const ', '').split('::')[-1] if 'Tpetra::' in at else None
        if k not in ('Map', 'Vector', 'Export', 'Import') or e.get('init') is None:
            return super().e_New(e, st, fr)
        w, r = self.world, self.rank
        a = [self.rv(x, st, fr) for x in e['init']['args'] if not x.get('defarg')]
        return w.tpetra(k, self, st, a, r)


def ints(xs):
    out = []
    for x in xs:
        x = T.to_num(x)
        n = x.as_int() if isinstance(x, Poly) else None
        if n is None:
            raise Unknown('value %s' % T.vstr(x))
        out.append(n)
    return out


def shuffled(seed, n, nodes, most):
    """a partition in which every node is held by 1..most ranks, in an order of its own on every rank"""
    import random
    g = random.Random(seed)
    ids = [[] for _ in range(n)]
    for k in range(nodes):
        for r in g.sample(range(n), g.randint(1, most)):
            ids[r].append(3 * k + 1)
    for x in ids:
        g.shuffle(x)
    return ids


PARTS = {
    'one rank': [[4, 9, 2]],
    'two ranks, a face': [[1, 2, 3, 4, 5], [7, 4, 2, 6]],
    'two ranks, nothing in common': [[1, 2], [4, 3]],
    'two ranks, everything in common': [[3, 1, 2], [2, 3, 1]],
    'three ranks in a row': [[1, 2, 3], [3, 4, 2, 5], [6, 5, 4]],
    'three ranks around an edge': [[1, 2, 9], [2, 3, 9], [9, 3, 1]],
    'a node of the first and last of three ranks': [[10, 20], [20, 30], [40, 10]],
    'a rank without nodes': [[5, 6], [], [6, 7]],
    'no nodes on the root': [[], [1, 2], [2, 3]],
    'four ranks around a corner': [[1, 2, 4, 5], [2, 3, 5, 6], [8, 7, 5, 4], [9, 8, 6, 5]],
    'large ids from zero': [[0, 1000000, 17], [17, 0], [1000000, 5, 0]],
    'five ranks, scattered': shuffled(1, 5, 14, 4),
    'four ranks, scattered': shuffled(2, 4, 10, 4),
    'six ranks, scattered': shuffled(3, 6, 12, 3),
}


def run(P, R):
    R.rule('sum', 'every node has on every rank holding it the sum over the ranks holding it', 10)
    R.rule('bound', 'the nodes of the partition boundary, with the least rank holding each', 4)
    R.rule('match', 'the ranks make matching collective calls', 2)
    R.rule('reject', 'fields with other than one to three components are rejected and stay as they are', 8)
    fn = P.fn('nsa_witness::reduce')
    R.guard('reject', '', reject, P, R)
    R.guard('match', 'tie break', tie, P, R)
    for name, ids in PARTS.items():
        for s in range(4) if len(ids) < 4 else range(2, 4):
            R.guard('sum', '%s, schedule %d' % (name, s), one, P, R, fn, name, ids, s)
            R.guard('sum', '%s, schedule %d, Tpetra' % (name, s), one, P, R, fn, name, ids, s, True)


def one(P, R, fn, name, ids, s, tpetra=False):
    n = len(ids)
    wh = where(P.fn('nimble::reduction::GenerateReductionInfo'), P)
    mems, sizes = [], []
    for r in range(n):
        m = vecmem('arg3', [Poly.const(i) for i in ids[r]])
        for root, w in (('arg4', 3), ('arg5', 1), ('arg6', 3), ('cells', 2)):
            for k in range(len(ids[r]) * w):
                m[(root, (('i', Poly.const(k)),))] = Poly.sym('%s%d.%d' % (root, r, k))
        m[('arg7', (('f', 'p'),))] = T.ptr(('cells', ()))
        m[('arg7', (('f', 'w'),))] = Poly.const(2)
        m.update(vecmem('arg9', []))
        m.update(vecmem('arg10', []))
        m[('tcomm', ())] = T.ptr(('new~tcomm', (('&',),))) if tpetra else Val('null')
        mems.append(m)

    def args(r):
        return [Poly.const(3), Poly.const(len(ids[r])), Val('obj', ('tcomm', ())), None, None, None, None, None, Poly.const(2), None, None]
    inst = '%s, schedule %d%s' % (name, s, ', Tpetra' if tpetra else '')
    try:
        W = World(P, fn, n, mems, args, s).go()
    except Failure as f:
        R.check(False, 'match', inst, wh, str(f))
        return
    except Unknown as u:
        R.check(None, 'match', inst, wh, str(u))
        return
    R.check(True, 'match', inst, wh, '')
    hold = {}
    for r in range(n):
        for k, g in enumerate(ids[r]):
            hold.setdefault(g, []).append((r, k))
    for r in range(n):
        X = W.runs[r]
        for root, w, what in (('arg4', 3, 'vector'), ('arg5', 1, 'scalar'), ('arg6', 3, 'second vector'), ('cells', 2, 'two components through an accessor')):
            for k, g in enumerate(ids[r]):
                for c_ in range(w):
                    want = sum_([Poly.sym('%s%d.%d' % (root, q, j * w + c_)) for q, j in hold[g]])
                    got = T.to_num(X.at(root, k * w + c_))
                    R.check(True if got == want else evalt.same(got, want), 'sum', '%s, rank %d, node %d, %s %d' % (inst, r, g, what, c_), wh, 'holds %s, the sum is %s' % (T.vstr(got), T.vstr(want)))
        nn, mn = [X.I.size_of(X.st, (a, ()), '').as_int() for a in ('arg9', 'arg10')]
        got = None
        if nn is not None and nn == mn:
            got = sorted(zip(ints([X.at('arg9', i, t='int') for i in range(nn)]), ints([X.at('arg10', i, t='int') for i in range(nn)])))
        want = sorted((k, min(q for q, _ in hold[g])) for k, g in enumerate(ids[r]) if len(hold[g]) > 1)
        R.check(got == want, 'bound', '%s, rank %d' % (inst, r), wh, 'lists %s, the shared nodes are %s' % (got, want))


STOP = ('abort', 'exit', 'MPI_Abort', 'std::abort', 'std::terminate')


def reject(P, R):
    """a field with no or more than three components"""
    for f in [g for g in P.functions.values() if g['q'] == 'nimble::reduction::ReductionInfo::PerformReduction']:
        R.used(f)
        wh = where(f, P)
        raw = interp.is_ptr(f['params'][0]['t'])
        for w in (-1, 0, 1, 2, 3, 4, 6):
            mem = vecmem('this', [], (('f', 'cliques'),))
            mem.update(vecmem('this', [], (('f', 'unfinished'),)))
            r = Run(P, f, args=[None, Poly.const(w)], mem=mem, peel=True)
            th = [e for e in r.trace if not e.guards and (e.kind in ('throw', 'abort', 'terminate') or e.kind == 'call' and (e.q in STOP or r.I.noreturn(e.q or '')))]
            inst = '%s of %d components' % ('array' if raw else 'accessor', w)
            R.check(bool(th) == (w not in (1, 2, 3)), 'reject', inst, wh, 'accepted' if not th else 'rejected')
            if th:
                R.check(not any(e.kind in ('write', 'call') and e.seq < th[0].seq and 'MPI' in str(e.q) for e in r.trace), 'reject', inst + ': nothing is sent', wh, 'communicates before rejecting')
    f = P.fn('nimble::TpetraContainer::VectorReduction', 2, lambda g: g['params'][0]['t'] == 'int')
    R.used(f)
    wh = where(f, P)
    for dim in (2, 3):
        for w in (-1, 0, 1, 2, 3, 4, 6):
            mem = vecmem('this', [], (('f', 'global_node_ids_'),))
            mem[('this', (('f', 'dim_'),))] = Poly.const(dim)
            v = lambda I, e, st, fr: T.ptr(('vals', (('i', ZERO),)))
            r = Run(P, f, args=[Poly.const(w), None], mem=mem, peel=True, intr={'Tpetra::Vector<>::getDataNonConst': v})
            th = [e for e in r.trace if not e.guards and (e.kind in ('throw', 'abort', 'terminate') or e.kind == 'call' and (e.q in STOP or r.I.noreturn(e.q or '')))]
            R.check(bool(th) == (w not in (1, dim)), 'reject', 'Tpetra in %dD: array of %d components' % (dim, w), wh, 'accepted' if not th else 'rejected')


def tie(P, R):
    """the owner of a shared entry is one of its holders"""
    for f in [g for g in P.functions.values() if g['q'].endswith('SimpleTieBreak<int, long long>::selectedIndex') or 'SimpleTieBreak' in g['q'] and g['n'] == 'selectedIndex']:
        R.used(f)
        wh = where(f, P)
        for pids in ([0], [1], [0, 1], [1, 0], [2, 0, 1], [3, 1, 2, 0], [1, 2, 3]):
            mem = {('arg1', (('f', '#size'),)): Poly.const(len(pids))}
            for i, p in enumerate(pids):
                mem[('arg1', (('i', Poly.const(i)), ('f', 'first')))] = Poly.const(p)
                mem[('arg1', (('i', Poly.const(i)), ('f', 'second')))] = Poly.const(i + 5)
            r = Run(P, f, args=[Poly.const(7), None], mem=mem, peel=True)
            v = T.to_num(r.ret).as_int()
            R.check(None if v is None else 0 <= v < len(pids), 'match', 'owner among ranks %s' % pids, wh, 'selects entry %s' % T.vstr(r.ret))
