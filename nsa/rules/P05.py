"""Explicit dynamics: the step loop computes the central difference recurrence, in the documented order, and writes consistent output."""
from .lib import *

UNITS = ['explicit_time_integrator.cc', 'integrator_base.cc', 'nimble.cc', 'nimble_model_data_base.cc']
NS = 'nimble::'
MDB = NS + 'ModelDataBase::'
NNODE = 2
N = 3 * NNODE
VECS = ['reference_coordinate', 'displacement', 'velocity', 'acceleration', 'internal_force', 'external_force', 'contact_force']


class World:
    """uninterpreted model: what each call does to the fields, as terms of the fields it may depend on"""

    def __init__(self, steps, freq, contact, viz=False):
        self.steps, self.freq, self.contact, self.viz = steps, freq, contact, viz
        self.out = []           # (time, displacement, velocity, acceleration, state)
        self.log = []

    # --- reference model on lists of terms
    def start(self):
        self.F = {v: [cell('F.' + v, i) for i in range(N)] for v in VECS}
        self.F['mass'] = [cell('F.mass', i) for i in range(NNODE)]
        self.S = self.Sn = Poly.sym('state0')

    def call(self, op, *a):
        F = self.F
        if op == 'mass':
            F['mass'] = [T.app('mass', Poly.const(i)) for i in range(NNODE)]
        elif op == 'ic':
            F['velocity'] = [T.app('ic', Poly.const(i), F['velocity'][i]) for i in range(N)]
        elif op == 'bc':
            v, d = F['velocity'], F['displacement']
            F['velocity'] = [T.app('bcv', Poly.const(i), a[0], a[1], v[i], d[i]) for i in range(N)]
        elif op == 'newv':
            F['velocity'] = [T.app('newv', Poly.const(i), a[0], x) for i, x in enumerate(F['velocity'])]
        elif op == 'newd':
            F['displacement'] = [T.app('newd', Poly.const(i), a[0], x) for i, x in enumerate(F['displacement'])]
        elif op == 'fext':
            F['external_force'] = [T.app('fext', Poly.const(i), *a) for i in range(N)]
        elif op == 'fint':
            d = F['displacement']
            F['internal_force'] = [T.app('fint', Poly.const(i), *a, self.S, *d) for i in range(N)]
            self.Sn = T.app('state', *a, self.S, *d)
        elif op == 'fcon':
            F['contact_force'] = [T.app('fcon', Poly.const(i), *a, *F['displacement']) for i in range(N)]
        elif op == 'update':
            self.S = self.Sn
        elif op == 'write':
            self.out.append((a[0], list(F['displacement']), list(F['velocity']), list(F['acceleration']), self.S, self.Sn))


def reference(w):
    w.start()
    F = w.F
    w.call('mass')
    t0, t1 = Poly.sym('t0'), Poly.sym('t1')
    dt = (t1 - t0).div(Poly.const(w.steps))
    w.call('ic')
    w.call('bc', t0, t0)
    w.call('write', t0)
    t = t0
    half = c(0.5)
    for s in range(w.steps):
        o = w.freq != 0 and (s % w.freq == 0 or s == w.steps - 1)
        ob = ONE if o else ZERO
        tp, t = t, t + dt
        F['velocity'] = [v + half * dt * a for v, a in zip(F['velocity'], F['acceleration'])]
        w.call('newv', half * dt)
        w.call('bc', t, tp)
        F['displacement'] = [d + dt * v for d, v in zip(F['displacement'], F['velocity'])]
        w.call('newd', dt)
        w.call('bc', t, tp)
        w.call('fext', tp, t, ob)
        w.call('fint', tp, t, ob)
        f = [a + b for a, b in zip(F['internal_force'], F['external_force'])]
        if w.contact:
            w.call('fcon', Poly.const(s + 1))
            f = [a + b for a, b in zip(f, F['contact_force'])]
        F['acceleration'] = [x.div(F['mass'][i // 3]) for i, x in enumerate(f)]
        F['velocity'] = [v + half * dt * a for v, a in zip(F['velocity'], F['acceleration'])]
        w.call('newv', half * dt)
        if o:
            w.call('bc', t, tp)
            w.call('write', t)
        w.call('update')
    return w


def hooks(w):
    """the same model acting on the abstract memory"""
    w.start()
    bad = w.bad = []

    def sync(I, st, F=None):
        for v in VECS:
            w.F[v] = [T.to_num(I.load(st, ('F.' + v, (('i', Poly.const(i)),)), 'double')) for i in range(N)]

    def back(I, st, names):
        for v in names:
            for i, x in enumerate(w.F[v]):
                I.store(st, ('F.' + v, (('i', Poly.const(i)),)), x)

    def view(I, e, st, fr):
        a = I.rv(e['args'][0], st, fr)
        if not (isinstance(a, Val) and a.tag in ('str', 'ptr')):
            return NotImplemented
        lab = a.a[0] if a.tag == 'str' else None
        scal = lab == 'lumped_mass'
        if lab not in VECS and not scal:
            bad.append(str(lab))
        loc = I.tmp('view')
        root = 'F.mass' if scal else 'F.%s' % lab
        I.put(st, (loc[0], (('f', 'data_'),)), T.ptr((root, (('i', ZERO),))))
        for k, (n, s) in enumerate([(NNODE, 1)] if scal else [(NNODE, 3), (3, 1)]):
            I.put(st, (loc[0], (('f', 'len_'), ('i', Poly.const(k)))), Poly.const(n))
            I.put(st, (loc[0], (('f', 'stride_'), ('i', Poly.const(k)))), Poly.const(s))
        return Val('obj', loc)

    def go(op, idx, wr):
        def h(I, e, st, fr):
            vs = [I.rv(e['args'][i], st, fr) for i in idx]
            vs = [T.to_num(x) for x in vs]
            sync(I, st)
            if st.guards and any(g != TRUE for g in st.guards):
                w.guarded = True
            w.call(op, *vs)
            w.log.append((op, e.get('l')))
            back(I, st, wr)
            return T.VOID
        return h

    def fint(I, e, st, fr):
        vs = [T.to_num(I.rv(e['args'][i], st, fr)) for i in (1, 2, 3)]
        sync(I, st)
        for i, lab in ((4, 'displacement'), (5, 'internal_force')):
            l = I.lv(e['args'][i], st, fr)
            p = I.load(st, (l[0], l[1] + (('f', 'data_'),)), 'double *')
            if not (isinstance(p, Val) and p.tag == 'ptr' and p.a[0][0] == 'F.' + lab):
                bad.append('internal force evaluated for %s' % T.vstr(p))
        w.call('fint', *vs)
        w.log.append(('fint', e.get('l')))
        back(I, st, ['internal_force'])
        return T.VOID

    def fcon(I, e, st, fr):
        vs = [T.to_num(I.rv(e['args'][0], st, fr))]
        l = I.lv(e['args'][2], st, fr)
        p = I.load(st, (l[0], l[1] + (('f', 'data_'),)), 'double *')
        if not (isinstance(p, Val) and p.tag == 'ptr' and p.a[0][0] == 'F.contact_force'):
            bad.append('contact force stored in %s' % T.vstr(p))
        sync(I, st)
        w.call('fcon', *vs)
        back(I, st, ['contact_force'])
        return T.VOID

    def mass(I, e, st, fr):
        w.call('mass')
        for i, x in enumerate(w.F['mass']):
            I.store(st, ('F.mass', (('i', Poly.const(i)),)), x)
        return T.VOID
    k = lambda v: (lambda I, e, st, fr: v)
    return {MDB + 'GetVectorNodeData': view, MDB + 'GetScalarNodeData': view, MDB + 'ComputeLumpedMass': mass,
            MDB + 'ApplyInitialConditions': go('ic', [], ['velocity']), MDB + 'ApplyKinematicConditions': go('bc', [1, 2], ['velocity', 'displacement']),
            MDB + 'UpdateWithNewVelocity': go('newv', [1], ['velocity']), MDB + 'UpdateWithNewDisplacement': go('newd', [1], ['displacement']),
            MDB + 'ComputeExternalForce': go('fext', [1, 2, 3], ['external_force']), MDB + 'ComputeInternalForce': fint,
            MDB + 'UpdateStates': go('update', [], []), NS + 'DataManager::WriteOutput': go('write', [0], []),
            NS + 'ContactManager::ComputeContactForce': fcon, NS + 'Parser::HasContact': k(TRUE if w.contact else FALSE),
            NS + 'Parser::ContactVisualization': k(TRUE if w.viz else FALSE), NS + 'Parser::InitialTime': k(Poly.sym('t0')), NS + 'Parser::FinalTime': k(Poly.sym('t1')),
            NS + 'Parser::NumLoadSteps': k(Poly.const(w.steps)), NS + 'Parser::OutputFrequency': k(Poly.const(w.freq)),
            NS + 'Parser::WriteTimingDataFile': k(FALSE), NS + 'GenesisMesh::GetDim': k(Poly.const(3)), NS + 'GenesisMesh::GetNumNodes': k(Poly.const(NNODE)),
            NS + 'NimbleApplication::Rank': k(ZERO), NS + 'NimbleApplication::NumRanks': k(ONE)}


CASES = [(1, 1, False), (2, 2, False), (3, 2, False), (5, 3, False), (2, 0, False), (3, 1, True), (2, 1, True)]


def run(P, R):
    R.rule('output', 'output is written at the initial time, every output interval and the last step, and only then', 8)
    R.rule('fields', 'displacement, velocity and acceleration written are those of the central difference recurrence', 60)
    R.rule('final', 'fields and material states after the last step are those of the recurrence', 30)
    R.rule('views', 'forces are evaluated on the views of the fields they are named for', 5)
    R.rule('reject', 'a final time before the initial time is rejected', 1)
    T.Poly.BIG = 60
    f = P.fn(NS + 'ExplicitTimeIntegrator::Integrate')
    R.used(f)
    for steps, freq, con in CASES:
        R.guard('fields', '%d steps, output every %d%s' % (steps, freq, ', contact' if con else ''), case, P, R, f, steps, freq, con)
    R.guard('reject', 'times', reject, P, R, f)
    R.guard('views', 'conditions of the model', glue, P, R, 'views')


def case(P, R, f, steps, freq, con):
    name = '%d steps, output every %d%s' % (steps, freq, ', contact' if con else '')
    wh = where(f, P)
    ref = reference(World(steps, freq, con))
    w = World(steps, freq, con)
    r = Run(P, f, intr=hooks(w))
    R.check(not w.bad, 'views', name, wh, ', '.join(w.bad)[:200])
    R.check(len(w.out) == len(ref.out), 'output', name, wh, '%d outputs, required %d' % (len(w.out), len(ref.out)))
    dom = lambda env: True
    for k, (g, q) in enumerate(zip(w.out, ref.out)):
        eq(R, 'output', '%s: time of output %d' % (name, k), wh, g[0], q[0])
        for lab, a, b in zip(('displacement', 'velocity', 'acceleration'), g[1:4], q[1:4]):
            for i in (0, N - 1):
                eq(R, 'fields', '%s: %s[%d] of output %d' % (name, lab, i, k), wh, a[i], b[i])
        eq(R, 'fields', '%s: state of output %d' % (name, k), wh, g[5], q[5])
    for lab in ('displacement', 'velocity', 'acceleration', 'internal_force'):
        for i in range(N):
            eq(R, 'final', '%s: %s[%d]' % (name, lab, i), wh, T.to_num(r.at('F.' + lab, i)), ref.F[lab][i])
    eq(R, 'final', '%s: state' % name, wh, w.S, ref.S)


def reject(P, R, f):
    """some throw is reached exactly when the final time is smaller, on every rank alike"""
    w = World(1, 1, False)
    h = hooks(w)
    rank = Poly.sym('rank')
    h[NS + 'NimbleApplication::Rank'] = lambda I, e, st, fr: rank
    r = Run(P, f, intr=h)
    th = [e for e in r.trace if e.kind == 'throw']
    g = T.b_or(*[T.b_and(*e.guards) if e.guards else TRUE for e in th]) if th else FALSE
    want = T.b_gt0(Poly.sym('t0') - Poly.sym('t1'))
    eq(R, 'reject', 'final time before initial time', where(f, P), g, want)
