"""Model of the Exodus C interface: the calls made on a database and the answers of an abstract mesh file."""
from .lib import *

# entity codes of the Exodus interface (exodusII.h)
KINDS = {14: 'EX_NODAL', 2: 'EX_NODE_SET', 1: 'EX_ELEM_BLOCK', 3: 'EX_SIDE_SET', 4: 'EX_ELEM_MAP', 5: 'EX_NODE_MAP', 13: 'EX_GLOBAL'}


class File:
    """contents of a mesh file; coordinates, distribution factors, ids and connectivity entries are symbols"""

    def __init__(self, dim=3, blocks=None, nodesets=None, sidesets=None, node_maps=(), elem_maps=(), nodes=5):
        self.dim, self.nodes = dim, nodes
        # (id, name, type, elements, nodes per element)
        self.blocks = blocks if blocks is not None else [(20, '', 'TETRA', 2, 4), (11, '', '', 0, 0), (5, 'steel', 'TRIANGLE', 1, 3)]
        # (id, name, entries, distribution factors)
        self.nodesets = nodesets if nodesets is not None else [(3, '', 2, 2), (1, 'top', 1, 1)]
        self.sidesets = sidesets if sidesets is not None else [(9, '', 2, 2), (4, 'skin', 1, 1)]
        self.maps = {'EX_NODE_MAP': list(node_maps), 'EX_ELEM_MAP': list(elem_maps)}
        self.elems = sum(b[3] for b in self.blocks)

    # symbols (1-based values as the file holds them)
    def coord(self, i, k):
        return Poly.sym('X%d.%s' % (i, 'xyz'[k]))

    def idmap(self, kind, i, aux=False):
        return Poly.sym('%s%s.%d' % ('aux' if aux else '', 'nid' if kind == 'EX_NODE_MAP' else 'eid', i))

    def conn(self, b, i):
        return Poly.sym('conn%d.%d' % (b, i))

    def entry(self, kind, s, i):
        return Poly.sym('%s%d.%d' % ('ns' if kind == 'EX_NODE_SET' else 'ss', s, i))

    def extra(self, s, i):
        return Poly.sym('side%d.%d' % (s, i))

    def dist(self, kind, s, i):
        return Poly.sym('%sdf%d.%d' % ('ns' if kind == 'EX_NODE_SET' else 'ss', s, i))

    def listing(self, kind):
        return {'EX_NODE_SET': self.nodesets, 'EX_SIDE_SET': self.sidesets, 'EX_ELEM_BLOCK': self.blocks}[kind]


class Reader:
    """answers ex_get_* from a File; 'fail' = (call number) makes that call report an error"""

    def __init__(self, P, f, fail=None, badopen=False):
        self.P, self.f, self.fail, self.badopen = P, f, fail, badopen
        self.calls, self.errors = [], []
        self.kinds = KINDS
        self.open = False

    def intr(self):
        d = {}
        for n in ('open', 'open_int', 'get_init', 'get_coord', 'get_id_map', 'get_map_param', 'get_name', 'get_num_map', 'get_ids', 'get_set_param', 'get_set',
                  'get_set_dist_fact', 'get_block', 'get_conn', 'close'):
            d['ex_' + n] = (lambda nm: lambda I, e, st, fr: self.call(nm, I, e, st, fr))(n)
        return d

    def call(self, nm, I, e, st, fr):
        a = [I.rv(x, st, fr) for x in e['args']]
        self.calls.append((nm, e.get('l'), list(st.guards)))
        k = len(self.calls) - 1
        if nm in ('open', 'open_int'):
            self.open = True
            self.fname = T.vstr(a[0])
            return Poly.const(-1) if self.fail == k else Poly.const(65536)
        if a[0] != Poly.const(65536):
            self.errors.append('ex_%s does not use the handle of the open file' % nm)
        if self.fail == k:
            return Poly.const(-1)
        getattr(self, nm)(I, st, a)
        return ZERO

    def kind(self, v):
        n = v.as_int() if isinstance(v, Poly) else None
        if n not in self.kinds:
            raise AnalysisError('unknown exodus entity type %s' % T.vstr(v))
        return self.kinds[n]

    def fill(self, I, st, p, vals, what):
        if isinstance(p, Val) and p.tag == 'null' or p == ZERO:
            self.errors.append('%s: null destination' % what) if vals else None
            return
        if not (isinstance(p, Val) and p.tag == 'ptr'):
            raise AnalysisError('%s: destination %s' % (what, T.vstr(p)))
        root, path = p.a[0]
        if path and path[-1][0] == 'i':
            n = I.size_of(st, (root, path[:-1]), '')
            room = (n - path[-1][1]).as_int() if isinstance(n, Poly) else None
            if room is not None and room < len(vals):
                self.errors.append('%s writes %d entries into room for %d' % (what, len(vals), room))
        for i, v in enumerate(vals):
            I.store(st, I.index(p, Poly.const(i), None), v)

    def out(self, I, st, p, v):
        I.store(st, I.index(p, ZERO, None), v)

    def text(self, I, st, p, s):
        root, path = p.a[0]
        I.put(st, p.a[0], T.strv(s))

    def item(self, kind, v):
        i = v.as_int() if isinstance(v, Poly) else None
        for x in self.f.listing(kind):
            if x[0] == i:
                return x
        raise AnalysisError('%s %s is not in the file' % (kind, T.vstr(v)))

    def get_init(self, I, st, a):
        f = self.f
        self.text(I, st, a[1], 'title')
        for p, v in zip(a[2:], (f.dim, f.nodes, f.elems, len(f.blocks), len(f.nodesets), len(f.sidesets))):
            self.out(I, st, p, Poly.const(v))

    def get_coord(self, I, st, a):
        for k in range(self.f.dim):
            self.fill(I, st, a[1 + k], [self.f.coord(i, k) for i in range(self.f.nodes)], 'ex_get_coord')

    def get_id_map(self, I, st, a):
        k = self.kind(a[1])
        self.fill(I, st, a[2], [self.f.idmap(k, i) for i in range(self.f.nodes if k == 'EX_NODE_MAP' else self.f.elems)], 'ex_get_id_map')

    def get_map_param(self, I, st, a):
        self.out(I, st, a[1], Poly.const(len(self.f.maps['EX_NODE_MAP'])))
        self.out(I, st, a[2], Poly.const(len(self.f.maps['EX_ELEM_MAP'])))

    def get_name(self, I, st, a):
        k = self.kind(a[1])
        if k in self.f.maps:
            i = a[2].as_int()
            self.text(I, st, a[3], self.f.maps[k][i - 1])
        else:
            self.text(I, st, a[3], self.item(k, a[2])[1])

    def get_num_map(self, I, st, a):
        k = self.kind(a[1])
        if a[2] != ONE:
            raise AnalysisError('ex_get_num_map of map %s' % T.vstr(a[2]))
        self.fill(I, st, a[3], [self.f.idmap(k, i, True) for i in range(self.f.nodes if k == 'EX_NODE_MAP' else self.f.elems)], 'ex_get_num_map')

    def get_ids(self, I, st, a):
        self.fill(I, st, a[2], [Poly.const(x[0]) for x in self.f.listing(self.kind(a[1]))], 'ex_get_ids')

    def get_set_param(self, I, st, a):
        x = self.item(self.kind(a[1]), a[2])
        self.out(I, st, a[3], Poly.const(x[2]))
        self.out(I, st, a[4], Poly.const(x[3]))

    def get_set(self, I, st, a):
        k = self.kind(a[1])
        x = self.item(k, a[2])
        self.fill(I, st, a[3], [self.f.entry(k, x[0], i) for i in range(x[2])], 'ex_get_set')
        if k == 'EX_SIDE_SET' and not (a[4] == ZERO or isinstance(a[4], Val) and a[4].tag == 'null'):
            self.fill(I, st, a[4], [self.f.extra(x[0], i) for i in range(x[2])], 'ex_get_set')

    def get_set_dist_fact(self, I, st, a):
        k = self.kind(a[1])
        x = self.item(k, a[2])
        if x[3] == 0:
            self.errors.append('distribution factors of set %d, which has none, are read' % x[0])
        self.fill(I, st, a[3], [self.f.dist(k, x[0], i) for i in range(x[3])], 'ex_get_set_dist_fact')

    def get_block(self, I, st, a):
        b = self.item('EX_ELEM_BLOCK', a[2])
        self.text(I, st, a[3], b[2])
        for p, v in zip(a[4:], (b[3], b[4], 0, 0, 0)):
            if not (p == ZERO or isinstance(p, Val) and p.tag == 'null'):
                self.out(I, st, p, Poly.const(v))

    def get_conn(self, I, st, a):
        b = self.item('EX_ELEM_BLOCK', a[2])
        self.fill(I, st, a[3], [self.f.conn(b[0], i) for i in range(b[3] * b[4])], 'ex_get_conn')

    def close(self, I, st, a):
        self.open = False


class Writer:
    """records what ex_put_* calls store, step by step"""
    NAMES = ('create', 'create_int', 'open', 'open_int', 'put_init', 'put_coord_names', 'put_coord', 'put_block', 'put_names', 'put_name', 'put_conn', 'put_id_map', 'put_concat_sets',
             'put_set_param', 'put_set', 'put_set_dist_fact', 'put_variable_param', 'put_variable_names', 'put_variable_name', 'put_qa', 'put_time', 'put_var', 'update', 'close')

    def __init__(self, fail=None):
        self.fail, self.calls, self.errors, self.db = fail, [], [], {}
        self.handle, self.mode = None, None

    def intr(self):
        d = {}
        for n in self.NAMES:
            d['ex_' + n] = (lambda nm: lambda I, e, st, fr: self.call(nm, I, e, st, fr))(n)
        return d

    def call(self, nm, I, e, st, fr):
        a = [I.rv(x, st, fr) for x in e['args']]
        self.calls.append((nm, e.get('l')))
        k = len(self.calls) - 1
        if nm in ('create', 'create_int', 'open', 'open_int'):
            if self.handle is not None:
                self.errors.append('a database is opened twice')
            name = T.vstr(a[0]).strip('"')
            w = [T.to_num(I.load(st, I.index(x, ZERO, None), 'int')).as_int() for x in a[2:4]]
            if w != [8, 8]:
                self.errors.append('word sizes %s' % w)
            mode = a[1].as_int() if isinstance(a[1], Poly) else None
            self.handle = Poly.const(65536 + len(self.calls))
            self.put('file', (nm.replace('_int', ''), name, mode))
            return Poly.const(-1) if self.fail == k else self.handle
        if self.handle is None or a[0] != self.handle:
            self.errors.append('ex_%s is not given the open database' % nm)
        if any(g not in (TRUE,) for g in st.guards if isinstance(g, type(TRUE))) and nm != 'close' and False:
            self.errors.append('ex_%s is conditional' % nm)
        if self.fail == k:
            return Poly.const(-1)
        getattr(self, nm)(I, st, a)
        return ZERO

    def put(self, key, val):
        if key in self.db:
            self.errors.append('%s is written twice' % (key,))
        self.db[key] = val

    def nums(self, I, st, p, n, t='double'):
        if n == 0:
            return []
        if not (isinstance(p, Val) and p.tag == 'ptr'):
            self.errors.append('source %s' % T.vstr(p))
            return []
        root, path = p.a[0]
        if path and path[-1][0] == 'i':
            s = I.size_of(st, (root, path[:-1]), '')
            room = (s - path[-1][1]).as_int() if isinstance(s, Poly) else None
            if room is not None and room < n:
                self.errors.append('%d entries are read from memory with %d' % (n, room))
        return [T.to_num(I.load(st, I.index(p, Poly.const(i), None), t)) for i in range(n)]

    def strs(self, I, st, p, n):
        out = []
        for i in range(n):
            q = I.load(st, I.index(p, Poly.const(i), None), 'char *')
            v = q
            if isinstance(q, Val) and q.tag in ('ptr', 'obj'):
                from ..core.intrinsics import as_str
                v = as_str(I, q, st)
            out.append(T.vstr(v).strip('"'))
        return out

    def ints(self, a):
        out = []
        for x in a:
            i = x.as_int() if isinstance(x, Poly) else None
            if i is None:
                raise AnalysisError('size %s is not known' % T.vstr(x)[:80])
            out.append(i)
        return out

    def kind(self, v):
        return KINDS.get(v.as_int() if isinstance(v, Poly) else None, T.vstr(v))

    def put_init(self, I, st, a):
        self.size = self.ints(a[2:8])
        self.put('init', self.size)

    def put_coord_names(self, I, st, a):
        self.put('coord names', self.strs(I, st, a[1], self.size[0]))

    def put_coord(self, I, st, a):
        for k in range(self.size[0]):
            self.put(('coord', k), self.nums(I, st, a[1 + k], self.size[1]))

    def put_block(self, I, st, a):
        from ..core.intrinsics import as_str
        b = self.ints([a[2]])[0]
        self.db.setdefault('block order', []).append(b)
        self.put(('block', b), (T.vstr(as_str(I, a[3], st)).strip('"'),) + tuple(self.ints(a[4:9])))

    def put_names(self, I, st, a):
        k = self.kind(a[1])
        n = {'EX_ELEM_BLOCK': 3, 'EX_NODE_SET': 4, 'EX_SIDE_SET': 5}[k]
        self.put(('names', k), self.strs(I, st, a[2], self.size[n]))

    def put_conn(self, I, st, a):
        b = self.ints([a[2]])[0]
        if ('block', b) not in self.db:
            self.errors.append('connectivity of a block not yet defined')
            return
        _, ne, nn = self.db['block', b][:3]
        self.put(('conn', b), self.nums(I, st, a[3], ne * nn, 'int'))

    def put_id_map(self, I, st, a):
        k = self.kind(a[1])
        self.put(('map', k), self.nums(I, st, a[2], self.size[1] if k == 'EX_NODE_MAP' else self.size[2], 'int'))

    def put_concat_sets(self, I, st, a):
        k = self.kind(a[1])
        n = self.size[4] if k == 'EX_NODE_SET' else self.size[5]
        root, path = a[2].a[0]
        if path and path[-1] == ('&',):
            path = path[:-1]

        def arr(f, m, t='int', off=0):
            p = I.load(st, (root, path + (('f', f),)), 'int *')
            if m == 0:
                return []
            return [T.to_num(I.load(st, I.index(p, Poly.const(off + i), None), t)) for i in range(m)]
        ids, ne, nd, ie, idx = (self.ints(arr(f, n)) for f in ('sets_ids', 'num_entries_per_set', 'num_dist_per_set', 'sets_entry_index', 'sets_dist_index'))
        self.put(('sets', k), ids)
        for i in range(n):
            self.put(('set', k, ids[i]), arr('sets_entry_list', ne[i], 'int', ie[i]))
            self.put(('dist', k, ids[i]), arr('sets_dist_fact', nd[i], 'double', idx[i]))

    def put_set_param(self, I, st, a):
        k = self.kind(a[1])
        i, n, d = self.ints(a[2:5])
        self.db.setdefault(('sets', k), []).append(i)
        self.put(('param', k, i), (n, d))
        self.put(('set', k, i), []) if n == 0 else None
        self.put(('dist', k, i), []) if d == 0 else None

    def put_set(self, I, st, a):
        k = self.kind(a[1])
        i = self.ints([a[2]])[0]
        n = self.db.get(('param', k, i), (0, 0))[0]
        self.db[('set', k, i)] = self.nums(I, st, a[3], n, 'int')

    def put_set_dist_fact(self, I, st, a):
        k = self.kind(a[1])
        i = self.ints([a[2]])[0]
        n = self.db.get(('param', k, i), (0, 0))[1]
        self.db[('dist', k, i)] = self.nums(I, st, a[3], n)

    def put_variable_param(self, I, st, a):
        self.put(('nvar', self.kind(a[1])), self.ints([a[2]])[0])

    def put_variable_names(self, I, st, a):
        n = self.ints([a[2]])[0]
        if self.db.get(('nvar', self.kind(a[1]))) != n:
            self.errors.append('%d variable names for %s variables' % (n, self.db.get(('nvar', self.kind(a[1])))))
        self.put(('vars', self.kind(a[1])), self.strs(I, st, a[3], n))

    def put_variable_name(self, I, st, a):
        n = self.ints([a[2]])[0]
        l = self.db.setdefault(('vars', self.kind(a[1])), [None] * (self.db.get(('nvar', self.kind(a[1]))) or 0))
        from ..core.intrinsics import as_str
        l[n - 1] = T.vstr(as_str(I, a[3], st)).strip('"')

    def put_qa(self, I, st, a):
        self.put('qa', self.ints([a[1]])[0])

    def put_time(self, I, st, a):
        self.put(('time', self.ints([a[1]])[0]), self.nums(I, st, a[2], 1)[0])

    def put_var(self, I, st, a):
        step, var, obj, n = self.ints([a[1], a[3], a[4], a[5]])
        k = self.kind(a[2])
        self.put(('var', step, k, var, obj if k == 'EX_ELEM_BLOCK' else 0), self.nums(I, st, a[6], n))

    def update(self, I, st, a):
        pass

    def close(self, I, st, a):
        self.handle = None
